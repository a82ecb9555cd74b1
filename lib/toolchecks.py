"""C22, C23, C24 and C26: the vfc executable as a user runs it."""
import array
import base64
import concurrent.futures
import hashlib
import json
import math
import os
import random
import re
import resource
import shutil
import signal
import stat
import struct
import subprocess
import tempfile
import time

import core
from core import Result, Shards, CheckError, build, clean_env, finish, log, TIER, SEED, JOBS

THOROUGH = TIER == "thorough"
SIZES = {"X8": 1, "X8Y8": 2, "X8Y8Z8": 3, "X8Y8Z8W8": 4, "X16": 2, "X16Y16": 4, "X16Y16Z16": 6, "X16Y16Z16W16": 8, "X32": 4,
         "X32Y32": 8, "X32Y32Z32": 12, "X32Y32Z32W32": 16, "X64": 8, "X64Y64": 16, "X64Y64Z64": 24, "X64Y64Z64W64": 32,
         "W2X10Y10Z10": 4, "W2Z10Y10X10": 4, "Z10Y11X11_UFloat": 4, "E5Z9Y9X9_UFloat": 4}


class Bad(Exception):
    def __init__(self, key, message):
        Exception.__init__(self, message)
        self.key = key


# --------------------------------------------------------------------------------------------------
# Cases

def load_cases(exe, work, begin, count, large_every):
    """Cases with the results of the library, from h_gen."""
    def one(k):
        b = begin + k * count // JOBS
        e = begin + (k + 1) * count // JOBS
        if b == e:
            return []
        path = "%s/cases%d.jsonl" % (work, k)
        p = subprocess.run([exe, "--check", "C22", "--seed", str(SEED), "--begin", str(b), "--end", str(e), "--extra",
                            str(large_every), "--out", path], env=clean_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise Bad("generator", "the library fails while making cases %d to %d: %s" % (b, e, p.stdout.decode(errors="replace")[-1500:]))
        with open(path, encoding="utf-8") as f:
            r = [json.loads(line) for line in f]
        os.unlink(path)
        return r
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return [c for part in ex.map(one, range(JOBS)) for c in part]


def finite(case):
    return all(math.isfinite(float.fromhex(x)) for s in case["bounds"] for e in s for v in e for x in v)


def element_list(elems, rng):
    r = []
    for e in elems:
        m = [("name", e["name"]), ("layout", e["layout"]), ("type", e["type"])]
        rng.shuffle(m)
        r.append(dict(m))
    return r


def make_config(case, vrefs, irefs, rng):
    c = {"vertexFormat": [element_list(s, rng) for s in case["outs"]]}
    if case["indexType"] != "none":
        c["indexType"] = case["indexType"]
    elif rng.random() < 0.3:
        c["indexType"] = None
    c["primitiveType"] = case["prim"]
    if case["prim"] == "TriangleList" and rng.random() < 0.3:
        del c["primitiveType"]
    if case["prim"] == "PatchList":
        c["patchPoints"] = case["patch"]
    c["vertexStreams"] = []
    for i, s in enumerate(case["streams"]):
        o = {"vertexFormat": element_list(s["elems"], rng), "vertexData": vrefs[i]}
        if s["indexType"] != "none":
            o["indexType"] = s["indexType"]
            o["indexData"] = irefs[i]
        c["vertexStreams"].append(o)
    if case["transforms"] or rng.random() < 0.5:
        c["vertexTransforms"] = case["transforms"]
    return json.dumps(c, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, None, 1, "\t"])).encode("utf-8", "surrogatepass")


def b64(hexdata):
    return "base64:" + base64.b64encode(bytes.fromhex(hexdata)).decode()


# --------------------------------------------------------------------------------------------------
# Running and judging

class Run:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def describe(self):
        return "exit %s%s, stderr %r, stdout %r" % (self.rc, " (timeout)" if self.timeout else "", self.err[-800:], self.out[:200])


def run_tool(cmd, cwd, stdin=None, stdout=None, preexec=None, timeout=60, env=None, close_fds=True):
    """stdin: bytes, a path is given as an open file. stdout: None captures."""
    kw = dict(cwd=cwd, env=env or clean_env(), preexec_fn=preexec, restore_signals=False)
    if isinstance(stdin, bytes) and len(stdin) < 1:
        stdin = subprocess.DEVNULL
    for attempt in (1, 2):
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if isinstance(stdin, bytes) else (stdin or subprocess.DEVNULL),
                             stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.PIPE, **kw)
        try:
            out, err = p.communicate(stdin if isinstance(stdin, bytes) else None, timeout=timeout)
            return Run(p.returncode, out if out is not None else b"", err)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            if attempt == 2:
                return Run(None, out if out is not None else b"", err, True)
            timeout *= 2


def crashed(r):
    if r.timeout:
        return "hangs"
    if r.rc < 0:
        return "is killed by signal %d" % -r.rc
    for s in (b"AddressSanitizer", b"runtime error:", b"terminate called", b"Assertion"):
        if s in r.err and r.rc != 0:
            return "dies: %s" % s.decode()
    return None


def strict_json(data):
    def pairs(p):
        d = {}
        for k, v in p:
            if k in d:
                raise ValueError("duplicate member " + k)
            d[k] = v
        return d

    def constant(x):
        raise ValueError("not JSON: " + x)
    return json.loads(data.decode("utf-8"), object_pairs_hook=pairs, parse_constant=constant)


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def same_float(a, b):
    return (isinstance(a, float) or is_int(a)) and float(a) == b and math.copysign(1, a) == math.copysign(1, b)


def read_ref(ref, cwd, what):
    if not isinstance(ref, str):
        raise Bad("data-reference", "%s isn't a string" % what)
    if ref.startswith("base64:"):
        text = ref[7:]
        try:
            d = base64.b64decode(text, validate=True)
        except ValueError as e:
            raise Bad("base64", "%s isn't base64: %s" % (what, e))
        if base64.b64encode(d).decode() != text:
            raise Bad("base64", "%s isn't canonical base64" % what)
        return d, None
    path = os.path.join(cwd, ref)
    try:
        with open(path, "rb") as f:
            return f.read(), path
    except OSError as e:
        raise Bad("missing-file", "%s names %r: %s" % (what, ref, e))


def compare(case, out, cwd, want_files):
    """Judges the printed document against the library's result. Returns the files it names."""
    try:
        doc = strict_json(out)
    except ValueError as e:
        raise Bad("not-json", "the output isn't JSON: %s: %r" % (e, out[:300]))
    files = []

    def data(ref, what, want):
        d, path = read_ref(ref, cwd, what)
        if (path is not None) != want_files:
            raise Bad("data-reference", "%s is %s" % (what, "a file" if path else "embedded"))
        if path:
            files.append(path)
        if d != want:
            raise Bad("data", "%s has %d bytes that differ from the %d of the conversion" % (what, len(d), len(want)))

    verts = doc.get("vertices")
    if not isinstance(verts, list) or len(verts) != len(case["outs"]):
        raise Bad("vertices", "wrong number of vertex streams")
    for i, elems in enumerate(case["outs"]):
        v = verts[i]
        offset = 0
        f = v.get("vertexFormat")
        if not isinstance(f, list) or len(f) != len(elems):
            raise Bad("format", "stream %d has the wrong number of elements" % i)
        for j, e in enumerate(elems):
            g = f[j]
            for k in ("name", "layout", "type"):
                if g.get(k) != e[k]:
                    raise Bad("format", "%s of element %d.%d is %r not %r" % (k, i, j, g.get(k), e[k]))
            if not is_int(g.get("offset")) or g["offset"] != offset:
                raise Bad("offset", "offset of element %d.%d is %r not %d" % (i, j, g.get("offset"), offset))
            for k, b in (("minValue", case["bounds"][i][j][0]), ("maxValue", case["bounds"][i][j][1])):
                b = [float.fromhex(x) for x in b]
                if not isinstance(g.get(k), list) or len(g[k]) != 4 or not all(same_float(x, y) for x, y in zip(g[k], b)):
                    raise Bad("bounds", "%s of element %d.%d is %r not %r" % (k, i, j, g.get(k), b))
            offset += SIZES[e["layout"]]
        if not is_int(v.get("vertexStride")) or v["vertexStride"] != offset:
            raise Bad("stride", "stride of stream %d is %r not %d" % (i, v.get("vertexStride"), offset))
        data(v.get("vertexData"), "vertexData of stream %d" % i, bytes.fromhex(case["verts"][i]))
        if len(case["verts"][i]) // 2 != offset * case["vertexCount"]:
            raise Bad("count", "stream %d has %d bytes for %d vertices" % (i, len(case["verts"][i]) // 2, case["vertexCount"]))
    if not is_int(doc.get("vertexCount")) or doc["vertexCount"] != case["vertexCount"]:
        raise Bad("count", "vertexCount is %r not %d" % (doc.get("vertexCount"), case["vertexCount"]))
    if case["indexType"] == "none":
        if "indexType" in doc or "indexBuffers" in doc:
            raise Bad("index-members", "index members without an index type")
    else:
        if doc.get("indexType") != case["indexType"]:
            raise Bad("index-type", "indexType is %r" % doc.get("indexType"))
        bufs = doc.get("indexBuffers", [])
        if len(bufs) != len(case["bufs"]):
            raise Bad("index-buffers", "%d index buffers, not %d" % (len(bufs), len(case["bufs"])))
        for i, b in enumerate(case["bufs"]):
            g = bufs[i]
            if not is_int(g.get("indexCount")) or g["indexCount"] != b["count"]:
                raise Bad("index-count", "indexCount of buffer %d is %r not %d" % (i, g.get("indexCount"), b["count"]))
            if not is_int(g.get("baseVertex")) or g["baseVertex"] != b["base"]:
                raise Bad("base-vertex", "baseVertex of buffer %d is %r not %d" % (i, g.get("baseVertex"), b["base"]))
            data(g.get("indexData"), "indexData of buffer %d" % i, bytes.fromhex(b["hex"]))
    if len(set(map(os.path.realpath, files))) != len(files):
        raise Bad("same-file", "several results in one file")
    return files


def case_files(case):
    """The names and sizes of the files the tool uses today."""
    return ([("vertices.%d.dat" % i, len(h) // 2) for i, h in enumerate(case["verts"])] +
            [("indices.%d.dat" % i, len(b["hex"]) // 2) for i, b in enumerate(case["bufs"])])


def sig(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
        h.update(b"|")
    return h.hexdigest()[:16]


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def pool(res, items, work, deadline):
    """Runs work(item) for all; work raises Bad for a violation. Stops after a violation."""
    state = dict(stop=False, done=0)

    def one(item):
        if state["stop"] or time.time() > deadline:
            return
        try:
            work(item)
            state["done"] += 1
        except Bad as e:
            state["stop"] = True
            res.violate(e.key, str(e), getattr(e, "replay", None))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(one, i) for i in items]:
            f.result()
    return state["done"]


def keep_case(prop, e, index, root, cmd, cwd, stdin):
    """Copies what a violation needs to be repeated next to the replay file."""
    keep = os.path.join(core.OUT, "kept-%s-%s" % (prop, index))
    shutil.rmtree(keep, ignore_errors=True)
    try:
        shutil.copytree(root, keep, symlinks=True)
    except (OSError, shutil.Error):
        pass
    e.replay = dict(property=prop, seed=SEED, tier=TIER, case=str(index), key=e.key, message=str(e), command_line=cmd,
                    working_directory=cwd, scratch=root, scratch_copy=keep,
                    stdin=stdin.decode("utf-8", "replace")[:20000] if isinstance(stdin, bytes) else None)


class Scratch:
    def __init__(self, prefix):
        self.prefix = prefix

    def __enter__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix=self.prefix, dir="/tmp"))
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# --------------------------------------------------------------------------------------------------
# C22

RULE22 = ("Case i is a generated mesh (all primitive, index and vertex formats, several streams, transforms, every 25th with more than 65536 vertices, "
          "so that it has several index buffers), converted by the library directly and by the executable several ways: all data embedded, all in "
          "files, mixed; configuration by file and standard input; output embedded and in files. Every printed value and every byte is compared with "
          "the library's result. Conversions into 102 full buffers and into 1003 buffers with a single vertex each are compared with what they were made of. "
          "Non-trivial: the documents of at least one successful run were compared; distinct by configuration and data.")


def many_buffers(res, exe, root, buffers, files):
    """A list of points that fills that many index buffers; vertices and indices are known without a conversion."""
    size = 65535
    n = size * (buffers - 1) + 1 + SEED % 1000
    d = "%s/many%d%s" % (root, buffers, "f" if files else "e")
    os.makedirs(d)
    last = {}
    index = "many%d%s" % (buffers, "f" if files else "e")
    try:
        data = array.array("I", range(n)).tobytes()
        write(d + "/points.dat", data)
        elems = [{"name": "id", "layout": "X32", "type": "UInt"}]
        write(d + "/config.json", json.dumps({"vertexFormat": [elems], "indexType": "UInt16", "primitiveType": "PointList",
                                              "vertexStreams": [{"vertexFormat": elems, "vertexData": "points.dat"}]}).encode())
        cmd = [exe, "-i", "config.json"] + (["-o", "out"] if files else [])
        last = dict(cmd=cmd)
        r = run_tool(cmd, d, timeout=300)
        died = crashed(r)
        if died:
            raise Bad("crash", "the tool %s: %s" % (died, r.describe()))
        if r.rc != 0:
            raise Bad("refused", "a valid conversion fails: " + r.describe())
        doc = strict_json(r.out)
        named = set()

        def ref(text, what):
            b, path = read_ref(text, d, what)
            if (path is not None) != files or path in named:
                raise Bad("data-reference", "%s is %r" % (what, text[:100]))
            if path:
                named.add(path)
            return b
        if doc.get("vertexCount") != n or ref(doc["vertices"][0]["vertexData"], "vertexData") != data:
            raise Bad("data", "the vertices aren't those of the input")
        whole = bytes(data)
        at = 0
        for i, b in enumerate(doc["indexBuffers"]):
            x = array.array("H", ref(b["indexData"], "indexData of buffer %d" % i))
            if len(x) != b["indexCount"] or array.array("I", map(b["baseVertex"].__add__, x)).tobytes() != whole[at*4:(at + len(x))*4]:
                raise Bad("index-buffers", "buffer %d of %d isn't that of points %d and on" % (i, len(doc["indexBuffers"]), at))
            at += len(x)
        if at != n:
            raise Bad("index-buffers", "%d of %d indices" % (at, n))
        res.count("index buffers of large conversions compared", len(doc["indexBuffers"]))
        res.case(sig(index), dict(command=cmd[1:], points=n))
    except (KeyError, TypeError, IndexError, ValueError, OverflowError) as e:
        b = Bad("document", "the document is malformed: %r" % e)
        keep_case("C22", b, index, d, last.get("cmd"), d, None)
        raise b
    except Bad as e:
        keep_case("C22", e, index, d, last.get("cmd"), d, None)
        raise
    finally:
        shutil.rmtree(d, ignore_errors=True)


def patch_buffers(res, exe, root, buffers, files):
    """As many index buffers with few vertices: each patch has as many points as the index type allows, all the same vertex."""
    size = 65535
    d = "%s/patch%d" % (root, buffers)
    os.makedirs(d)
    last = {}
    index = "patch%d" % buffers
    try:
        with open(d + "/points.dat", "wb") as f:
            for i in range(buffers):
                f.write(struct.pack("<H", i)*size)
        elems = [{"name": "id", "layout": "X16", "type": "UInt"}]
        write(d + "/config.json", json.dumps({"vertexFormat": [elems], "indexType": "UInt16", "primitiveType": "PatchList", "patchPoints": size,
                                              "vertexStreams": [{"vertexFormat": elems, "vertexData": "points.dat"}]}).encode())
        cmd = [exe, "-i", "config.json", "-o", "out"]
        last = dict(cmd=cmd)
        r = run_tool(cmd, d, timeout=300)
        died = crashed(r)
        if died:
            raise Bad("crash", "the tool %s: %s" % (died, r.describe()))
        if r.rc != 0:
            raise Bad("refused", "a valid conversion fails: " + r.describe())
        doc = strict_json(r.out)
        vertices, path = read_ref(doc["vertices"][0]["vertexData"], d, "vertexData")
        named = {path}
        if doc["vertexCount"]*2 != len(vertices):
            raise Bad("data", "vertexCount %r for %d bytes" % (doc["vertexCount"], len(vertices)))
        at = 0
        for i, b in enumerate(doc["indexBuffers"]):
            data, path = read_ref(b["indexData"], d, "indexData of buffer %d" % i)
            if path is None or path in named:
                raise Bad("data-reference", "indexData of buffer %d is %r" % (i, b["indexData"][:100]))
            named.add(path)
            if len(data) != 2*b["indexCount"] or b["indexCount"] % size:
                raise Bad("index-buffers", "buffer %d has %d bytes for %r indices" % (i, len(data), b["indexCount"]))
            for k in range(0, len(data), 2*size):
                x = struct.unpack_from("<H", data, k)[0]
                v = (x + b["baseVertex"])*2
                if data[k:k + 2*size] != struct.pack("<H", x)*size or vertices[v:v + 2] != struct.pack("<H", at):
                    raise Bad("index-buffers", "buffer %d of %d isn't that of patch %d" % (i, len(doc["indexBuffers"]), at))
                at += 1
        if at != buffers:
            raise Bad("index-buffers", "%d of %d patches" % (at, buffers))
        res.count("index buffers of large conversions compared", len(doc["indexBuffers"]))
        res.case(sig(index), dict(command=cmd[1:], patches=buffers))
    except (KeyError, TypeError, IndexError, ValueError, OverflowError, struct.error) as e:
        b = Bad("document", "the document is malformed: %r" % e)
        keep_case("C22", b, index, d, last.get("cmd"), d, None)
        raise b
    except Bad as e:
        keep_case("C22", e, index, d, last.get("cmd"), d, None)
        raise
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c22():
    res = Result("C22")
    exes = build([("h_gen", "san", ["lib", "h_gen.cpp"]), ("vfc", "san", ["lib", "tool", "main"]), ("vfc", "rel", ["lib", "tool", "main"])])
    count = 12000 if THOROUGH else 900
    with Scratch("vfc22-") as root:
        try:
            cases = load_cases(exes[("h_gen", "san")], root, 0, count, 25)
        except Bad as e:
            raise CheckError(str(e))

        def work(case):
            rng = random.Random("%d/C22/%d" % (SEED, case["case"]))
            d = "%s/%d" % (root, case["case"])
            os.makedirs(d + "/cfg/sub")
            os.makedirs(d + "/cwd")
            ok = case["ok"] and finite(case)
            last = {}
            try:
                for k in range(4):
                    exe = exes[("vfc", "san" if k != 3 and len(case["verts"][0]) < 200000 else "rel")] if case["verts"] else exes[("vfc", "rel")]
                    stdin = k in (1,) or (k == 3 and rng.random() < 0.3)
                    base = "cwd" if stdin else "cfg"
                    mode = ("embed", "file", "file", "mixed")[k]

                    def ref(hexdata, name):
                        if mode == "embed" or (mode == "mixed" and rng.random() < 0.5):
                            res.count("inputs embedded")
                            return b64(hexdata)
                        rel = rng.choice([name, "./" + name, "sub/" + name if not stdin else name])
                        write("%s/%s/%s" % (d, base, rel), bytes.fromhex(hexdata))
                        res.count("inputs from files")
                        return rel if rng.random() < 0.8 else "%s/%s/%s" % (d, base, rel)
                    v = [ref(s["v"], "v%d.dat" % i) for i, s in enumerate(case["streams"])]
                    x = [ref(s["i"], "i%d.dat" % i) for i, s in enumerate(case["streams"])]
                    text = make_config(case, v, x, rng)
                    cmd = [exe]
                    if not stdin:
                        write(d + "/cfg/config.json", text)
                        cmd += [rng.choice(["-i", "--input"]), rng.choice(["../cfg/config.json", d + "/cfg/config.json"])]
                    files = k in (2,) or (k in (1, 3) and rng.random() < 0.4)
                    if files:
                        o = [rng.choice(["-o", "--output"]), rng.choice(["out", "a/b%d" % k, d + "/abs/out", "out/"])]
                        cmd = cmd + o if rng.random() < 0.5 else [exe] + o + cmd[1:]
                        # Files of an earlier run or of somebody else's are already there, of the same size or another.
                        where = os.path.join(d + "/cwd", o[1])
                        for name, size in case_files(case):
                            if rng.random() < 0.6:
                                size = rng.choice([size, size, size + 1, size*2 + 100, size//2, 0])
                                write(os.path.join(where, name), rng.choice([bytes(size), rng.randbytes(size)]))
                                res.count("output files that existed before")
                    last = dict(cmd=cmd, stdin=text if stdin else None)
                    r = run_tool(cmd, d + "/cwd", text if stdin else None)
                    died = crashed(r)
                    if died:
                        raise Bad("crash", "the tool %s: %s" % (died, r.describe()))
                    if ok:
                        if r.rc != 0:
                            raise Bad("refused", "a valid conversion fails: " + r.describe())
                        compare(case, r.out, d + "/cwd", files)
                        res.count("documents compared")
                        res.count("index buffers compared", len(case["bufs"]))
                        res.count("output through " + ("files" if files else "embedded data"))
                        res.count("configuration by " + ("stdin" if stdin else "file"))
                    else:
                        if r.rc == 0:
                            raise Bad("accepted", "exit 0 although the library fails or the bounds aren't finite: " + r.describe())
                        if r.out:
                            raise Bad("output-on-failure", "output of a failed run: " + r.describe())
                        res.count("conversions that can't be output")
                if len(case["bufs"]) > 1:
                    res.count("cases with several index buffers")
                res.case(sig(last["cmd"][1:], json.dumps(case["outs"]), case["streams"][0]["v"], case["streams"][0]["i"]) if ok else None,
                         dict(command=last["cmd"][1:], outputs=case["outs"], primitive=case["prim"], index=case["indexType"],
                              vertices=case["vertexCount"]) if ok else None)
            except Bad as e:
                keep_case("C22", e, case["case"], d, last.get("cmd"), d + "/cwd", last.get("stdin"))
                raise
            finally:
                shutil.rmtree(d, ignore_errors=True)
        t = time.time()
        done = pool(res, cases, work, time.time() + (600 if THOROUGH else 240))
        large = [(many_buffers, 102, True), (patch_buffers, 1003, True)] + ([(many_buffers, 102, False), (many_buffers, 1003, True)] if THOROUGH else [])
        pool(res, large, lambda x: x[0](res, exes[("vfc", "rel")], root, *x[1:]), time.time() + 200)
        res.stages.append(dict(stage="vfc executable", cases=done, of=len(cases), seconds=round(time.time() - t, 1)))
        log("%d of %d cases" % (done, len(cases)))
    return finish(res, "exploration", RULE22, ["the conversion itself is judged by C01 to C11; here only how the tool feeds and reports it"])


# --------------------------------------------------------------------------------------------------
# C23

def strace_works(scratch):
    if not shutil.which("strace"):
        return False
    try:
        p = subprocess.run(["strace", "-qq", "-f", "-o", scratch + "/probe", "-e", "trace=openat", "-e", "inject=openat:error=EMFILE:when=999",
                            "/bin/true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
        return p.returncode == 0 and os.path.getsize(scratch + "/probe") > 0
    except (OSError, subprocess.SubprocessError):
        return False


FAULTS = {"write": ["ENOSPC", "EIO"], "writev": ["ENOSPC", "EIO"], "pwrite64": ["EIO"], "read": ["EIO"], "readv": ["EIO"], "pread64": ["EIO"],
          "open": ["EACCES", "EMFILE"], "openat": ["EACCES", "EMFILE"], "creat": ["EACCES"], "mkdir": ["EACCES", "ENOSPC"],
          "mkdirat": ["EACCES"], "close": ["EIO"], "lseek": ["EIO"], "fstat": ["EIO"], "newfstatat": ["EIO"], "fsync": ["EIO"],
          "fdatasync": ["EIO"], "rename": ["EIO"], "renameat": ["EIO"], "renameat2": ["EIO"], "ftruncate": ["EIO"]}

RULE23 = ("A set of runs of the executable (embedded and file input and output, standard input, documents larger than the buffers, nested new output "
          "directories, conversions that fail) is traced once, then repeated once for every single system call of it that opens, reads, writes, creates or "
          "closes (and from there on), with that call made to fail (strace fault injection), and with every file size limit from 0 to "
          "the largest output (short writes), full and closed standard outputs, unwritable places, unreadable inputs and results without JSON form; the help likewise. "
          "The tool's main is also run in child processes with allocations failing, each of the first ones and sampled later ones, once or from then on. "
          "Oracle: exit 0 only with all files and the document complete and equal to the library's result; otherwise non-zero with a diagnostic, nothing "
          "on standard output before the result, and no signal. Distinct by run and fault; non-trivial: the fault was delivered.")


def ignore_signals():
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


def help_faults(res, exe, root, have_strace):
    """The help is output as well: exit 0 only when all of it was written."""
    d = root + "/help"
    os.makedirs(d)
    base = run_tool([exe, "--help"], d)
    if base.rc != 0 or not base.out:
        raise Bad("help", "--help: " + base.describe())
    size = len(base.out)
    faults = [("stdout", k) for k in ("full", "closed", "readonly", "brokenpipe")]
    faults += [("fsize", k) for k in sorted(set([0, 1, 4095, 4096, 4097, size - 1, size, size//2] + list(range(0, size, 1 if THOROUGH else 97)))) if k <= size]
    if have_strace:
        faults += [("strace", e + ":when=" + w) for e in ("ENOSPC", "EIO") for w in ("1", "2", "1+", "2+")]
    for kind, what in faults:
        label = "help with %s %s" % (kind, what)
        cmd = [exe, random.Random("%d/%s" % (SEED, label)).choice(["-h", "--help"])]
        pre = ignore_signals
        stdout = None
        try:
            if kind == "stdout":
                if what == "full":
                    stdout = open("/dev/full", "wb")
                elif what == "brokenpipe":
                    rd, wr = os.pipe()
                    os.close(rd)
                    stdout = os.fdopen(wr, "wb", buffering=0)
                else:
                    stdout = open("/dev/null", "rb")
                    if what == "closed":
                        def pre():
                            ignore_signals()
                            os.close(1)
            else:
                stdout = open(d + "/out", "wb")
                if kind == "fsize":
                    def pre():
                        ignore_signals()
                        resource.setrlimit(resource.RLIMIT_FSIZE, (what, what))
                else:
                    cmd = ["strace", "-qq", "-o", d + "/trace", "-e", "trace=write", "-e", "inject=write:error=" + what] + cmd
            r = run_tool(cmd, d, stdout=stdout, preexec=pre)
        finally:
            if stdout:
                stdout.close()
        died = crashed(r)
        complete = kind != "stdout" and core._read(d + "/out") == base.out
        if kind == "strace" and b"INJECTED" not in core._read(d + "/trace"):
            res.count("faults not reached")
            continue
        e = None
        if died:
            e = Bad("crash", "%s: the tool %s: %s" % (label, died, r.describe()))
        elif r.rc == 0 and not complete:
            e = Bad("success-without-output", "%s: exit 0 although the help wasn't written" % label)
        elif r.rc != 0 and complete and kind == "fsize":
            e = Bad("failure", "%s: fails although all was written: %s" % (label, r.describe()))
        elif r.rc != 0 and not r.err.strip() and not (kind == "strace" and what.endswith("+")):
            e = Bad("no-diagnostic", "%s: exit %d without a diagnostic" % (label, r.rc))
        if e:
            keep_case("C23", e, re.sub(r"\W+", "-", label), d, cmd, d, None)
            raise e
        res.count("fault kind help " + kind)
        res.case(sig(label), None)


def c23():
    res = Result("C23")
    exes = build([("h_gen", "san", ["lib", "h_gen.cpp"]), ("vfc", "rel", ["lib", "tool", "main"])])
    with Scratch("vfc23-") as root:
        os.chmod(root, 0o755)
        try:
            cases = load_cases(exes[("h_gen", "san")], root, 5000, 400, 50)
        except Bad as e:
            raise CheckError(str(e))
        exe = root + "/vfc"
        shutil.copy(exes[("vfc", "rel")], exe)
        os.chmod(exe, 0o755)
        good = [c for c in cases if c["ok"] and finite(c) and c["verts"]]
        size = lambda c: sum(len(v) for v in c["verts"]) // 2
        small = sorted([c for c in good if c["indexType"] != "none" and len(c["outs"]) > 1 and 40 < size(c) < 1500], key=lambda c: c["case"])
        medium = [c for c in good if 3000 < size(c) < 60000] or good
        large = [c for c in good if size(c) > 150000] or medium
        multi = [c for c in good if len(c["bufs"]) > 1] or large
        nonfinite = [c for c in cases if c["ok"] and not finite(c)]
        if not small or not medium:
            raise CheckError("no suitable cases")
        have_strace = strace_works(root)
        if not have_strace:
            res.notes.append("strace can't inject faults here: only the other faults are used")
        counter = [0]

        def setup(case, files_in, how, rng):
            """Returns (dir, cwd, args, stdin text)."""
            with res.lock:
                counter[0] += 1
                d = "%s/r%d" % (root, counter[0])
            os.makedirs(d + "/cfg")
            os.makedirs(d + "/cwd")
            os.chmod(d, 0o777)
            os.chmod(d + "/cwd", 0o777)
            base = "cwd" if how == "stdin" else "cfg"

            def ref(hexdata, name):
                if not files_in:
                    return b64(hexdata)
                write("%s/%s/%s" % (d, base, name), bytes.fromhex(hexdata))
                return name
            v = [ref(s["v"], "v%d.dat" % i) for i, s in enumerate(case["streams"])]
            x = [ref(s["i"], "i%d.dat" % i) if s["indexType"] != "none" else "" for i, s in enumerate(case["streams"])]
            text = make_config(case, v, x, rng)
            args = []
            if how == "file":
                write(d + "/cfg/config.json", text)
                args = ["-i", "../cfg/config.json"]
            return d, d + "/cwd", args, text if how == "stdin" else None

        def judge(case, r, cwd, files_out, what, stdout_data=None, stderr_lost=False, must_fail=False, before_output=False):
            """Raises Bad unless the run was honest."""
            out = r.out if stdout_data is None else stdout_data
            died = crashed(r)
            if died:
                raise Bad("crash", "%s: the tool %s: %s" % (what, died, r.describe()))
            if r.rc == 0:
                if must_fail:
                    raise Bad("success-reported", "%s: exit 0: %s" % (what, r.describe()))
                try:
                    compare(case, out, cwd, files_out)
                except Bad as e:
                    raise Bad("false-success", "%s: exit 0 but %s" % (what, e))
                res.count("runs that succeed in spite of the fault")
                return
            if not r.err and not stderr_lost:
                raise Bad("no-diagnostic", "%s: %s" % (what, r.describe()))
            if before_output and out:
                raise Bad("output-on-failure", "%s: %s" % (what, r.describe()))
            res.count("failures reported")

        # ---- Plain runs to be made to fail.
        rng0 = random.Random("%d/C23" % SEED)
        pick = lambda l: l[rng0.randrange(len(l))]
        bases = [("embedded", pick(small), False, "file", None), ("embedded by stdin", pick(small), False, "stdin", None),
                 ("files", pick(small), True, "file", "out/a/b"), ("files by stdin", pick(medium), True, "stdin", "out"),
                 ("large embedded", pick(medium), True, "file", None), ("large files", pick(large), True, "file", "o"),
                 ("several buffers", pick(multi), True, "file", "out")]
        if THOROUGH:
            for k in range(12):
                bases.append(("random %d" % k, pick(good), rng0.random() < 0.6, rng0.choice(["file", "stdin"]),
                              rng0.choice([None, "out", "x/y/z", "out/"])))
        items = []
        for name, case, fin, how, outdir in bases:
            items.append(("base", name, case, fin, how, outdir))
        logs = {}

        def run_base(item):
            _, name, case, fin, how, outdir = item
            rng = random.Random("%d/C23/%s" % (SEED, name))
            d, cwd, args, text = setup(case, fin, how, rng)
            if outdir:
                args += ["-o", outdir]
            cmd = [exe] + args
            if have_strace:
                cmd = ["strace", "-qq", "-f", "-o", d + "/trace", "-e", "trace=" + ",".join(FAULTS)] + cmd
            r = run_tool(cmd, cwd, text)
            if r.rc != 0:
                e = Bad("refused", "%s: a valid conversion fails: %s" % (name, r.describe()))
                keep_case("C23", e, name, d, cmd, cwd, text)
                raise e
            judge(case, r, cwd, bool(outdir), name)
            calls = {}
            if have_strace:
                for line in open(d + "/trace", errors="replace"):
                    m = re.match(r"(?:\d+ +)?(\w+)\(", line)
                    if m and m.group(1) in FAULTS:
                        calls[m.group(1)] = calls.get(m.group(1), 0) + 1
            sizes = [len(r.out)] + [os.path.getsize(os.path.join(dp, f)) for dp, _, fs in os.walk(cwd) for f in fs]
            logs[name] = (calls, max(sizes), sizes)
            shutil.rmtree(d, ignore_errors=True)
        pool(res, items, run_base, time.time() + 200)

        # ---- Faults.
        faults = []
        if not res.violations:
            for item in items:
                _, name, case, fin, how, outdir = item
                calls, biggest, sizes = logs[name]
                for call, number in sorted(calls.items()):
                    ks = list(range(1, number + 1))
                    if len(ks) > 60 and not THOROUGH:
                        ks = sorted(set(ks[:30] + ks[-20:] + rng0.sample(ks, 20)))
                    for k in ks:
                        for err in FAULTS[call]:
                            faults.append((item, "%s %s when=%d" % (call, err, k), ("strace", call, err, "%d" % k)))
                        if call in ("write", "writev"):
                            faults.append((item, "%s %s when=%d+" % (call, FAULTS[call][0], k), ("strace", call, FAULTS[call][0], "%d+" % k)))
                limits = set(range(0, min(biggest, 300))) if name in ("embedded", "files") else set()
                for s in sizes:
                    limits.update(x for x in (0, 1, s - 1, s // 2, s - 2, 4095, 4096, 8191, 8192) if 0 <= x < s)
                limits.update(rng0.randrange(biggest) for _ in range(200 if THOROUGH else 25))
                for lim in sorted(limits):
                    faults.append((item, "file size limit %d" % lim, ("fsize", lim)))
                for kind in ("full", "closed", "readonly", "brokenpipe"):
                    faults.append((item, "standard output " + kind, ("stdout", kind)))
                if outdir:
                    for kind in ("file-is-directory", "file-is-full", "outdir-is-file", "parent-is-file", "dangling-link", "unwritable", "name-too-long"):
                        for which in ("vertices.0.dat", "last"):
                            faults.append((item, "%s (%s)" % (kind, which), ("place", kind, which)))
                if fin:
                    for kind in ("missing", "directory", "unreadable", "loop"):
                        for which in ("v", "i"):
                            faults.append((item, "input %s %s" % (which, kind), ("input", kind, which)))
                if how == "file":
                    for kind in ("missing", "directory", "unreadable", "truncated"):
                        faults.append((item, "config " + kind, ("config", kind)))
            for k, c in enumerate((nonfinite * 3)[:30 if not THOROUGH else 300]):
                faults.append((("base", "nonfinite", c, k % 2 == 0, "file" if k % 3 else "stdin", "out" if k % 2 else None), "bounds without JSON form %d" % k, ("none", "fail")))
            for k, c in enumerate(small[:20]):
                for kind in ("index", "transform", "element", "vertexsize", "indexsize", "base64", "nothing"):
                    faults.append((("base", "invalid", c, k % 2 == 0, "file" if k % 3 else "stdin", "out" if k % 4 else None), "invalid %s %d" % (kind, k), ("invalid", kind)))

        def unprivileged():
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)

        def run_fault(f):
            (_, name, case, fin, how, outdir), label, fault = f
            label = "%s, %s" % (name, label)
            rng = random.Random("%d/C23/%s" % (SEED, name))
            case = dict(case)
            kind = fault[0]
            must_fail = before = False
            if kind == "invalid":
                case = json.loads(json.dumps(case))
                st = case["streams"][rng.randrange(len(case["streams"]))]
                what = fault[1]
                idx = [s for s in case["streams"] if s["indexType"] != "none" and any(e["name"] in {o["name"] for os_ in case["outs"] for o in os_} for e in s["elems"])]
                if what in ("index", "indexsize") and not idx:
                    return
                if what == "index":
                    s = idx[0]
                    w = 4 if s["indexType"] == "UInt16" else 8
                    s["i"] = s["i"][:-w] + ("feff" if w == 4 else "feffffff")
                elif what == "transform":
                    case["transforms"] = case["transforms"] + [{"name": "there is no such element", "transform": "Bounds"}]
                elif what == "element":
                    case["outs"][0].append({"name": "there is no such element", "layout": "X8", "type": "UInt"})
                elif what == "vertexsize":
                    if sum(SIZES[e["layout"]] for e in st["elems"]) == 1:
                        return
                    st["v"] = st["v"] + "00"
                elif what == "indexsize":
                    idx[0]["i"] += "00"
                elif what == "nothing":
                    st["v"] = ""
                must_fail = before = True
            d, cwd, args, text = setup(case, fin and fault != ("invalid", "base64"), how, rng)
            if fault == ("invalid", "base64"):
                bad = lambda t: t.replace(b"base64:", b"base64:A", 1)
                if text is not None:
                    text = bad(text)
                else:
                    write(d + "/cfg/config.json", bad(core._read(d + "/cfg/config.json")))
            if outdir:
                args = args + ["-o", outdir]
            cmd = [exe] + args
            pre = ignore_signals
            stdout = None
            stdout_data = None
            stderr_lost = False
            delivered = True
            close = []
            try:
                if kind == "strace":
                    _, call, err, when = fault
                    cmd = ["strace", "-qq", "-f", "-o", d + "/trace", "-e", "trace=" + call, "-e", "inject=%s:error=%s:when=%s" % (call, err, when)] + cmd
                    stderr_lost = when.endswith("+")
                elif kind == "fsize":
                    # Standard output goes to a file too, so that it is limited.
                    stdout = open(d + "/stdout", "wb")
                    close.append(stdout)
                    lim = fault[1]

                    def pre():
                        ignore_signals()
                        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                elif kind == "stdout":
                    must_fail = True
                    if fault[1] == "full":
                        stdout = open("/dev/full", "wb")
                    elif fault[1] == "readonly":
                        stdout = open("/dev/null", "rb")
                    elif fault[1] == "brokenpipe":
                        rd, wr = os.pipe()
                        os.close(rd)
                        stdout = os.fdopen(wr, "wb", buffering=0)
                    else:
                        stdout = open("/dev/null", "rb")

                        def pre():
                            ignore_signals()
                            os.close(1)
                    close.append(stdout)
                elif kind == "place":
                    _, what, which = fault
                    od = os.path.join(cwd, outdir)
                    if which == "last":
                        which = "indices.%d.dat" % (len(case["bufs"]) - 1) if case["indexType"] != "none" and case["bufs"] else "vertices.%d.dat" % (len(case["outs"]) - 1)
                    must_fail = before = True
                    if what == "file-is-directory":
                        os.makedirs(od + "/" + which)
                    elif what == "file-is-full":
                        os.makedirs(od)
                        os.symlink("/dev/full", od + "/" + which)
                    elif what == "dangling-link":
                        os.makedirs(od)
                        os.symlink(d + "/nowhere/x", od + "/" + which)
                    elif what == "outdir-is-file":
                        write(od.rstrip("/"), b"x")
                    elif what == "parent-is-file":
                        write(cwd + "/file", b"x")
                        cmd[-1] = "file/" + outdir
                    elif what == "name-too-long":
                        cmd[-1] = "n" * 300
                    elif what == "unwritable":
                        os.makedirs(od)
                        os.chmod(od, 0o555)

                        def pre():
                            ignore_signals()
                            unprivileged()
                elif kind == "input":
                    must_fail = before = True
                    base = cwd if how == "stdin" else d + "/cfg"
                    names = sorted(x for x in os.listdir(base) if x.startswith(fault[2]) and x.endswith(".dat"))
                    if not names:
                        return
                    p = base + "/" + names[rng.randrange(len(names))]
                    if fault[1] == "unreadable":
                        os.chmod(p, 0)

                        def pre():
                            ignore_signals()
                            unprivileged()
                    else:
                        os.unlink(p)
                        if fault[1] == "directory":
                            os.mkdir(p)
                        elif fault[1] == "loop":
                            os.symlink(p, p)
                elif kind == "config":
                    must_fail = before = True
                    p = d + "/cfg/config.json"
                    if fault[1] == "truncated":
                        data = core._read(p)
                        write(p, data[:rng.randrange(len(data.rstrip()))])
                    elif fault[1] == "unreadable":
                        os.chmod(p, 0)

                        def pre():
                            ignore_signals()
                            unprivileged()
                    else:
                        os.unlink(p)
                        if fault[1] == "directory":
                            os.mkdir(p)
                elif kind == "none":
                    must_fail = before = True
                r = run_tool(cmd, cwd, text, stdout=stdout, preexec=pre)
                for c in close:
                    c.close()
                if kind == "fsize":
                    stdout_data = core._read(d + "/stdout")
                    if r.rc == 0:
                        must_fail = False  # judged by completeness
                if kind == "strace":
                    tr = core._read(d + "/trace") if os.path.exists(d + "/trace") else b""
                    delivered = b"INJECTED" in tr
                    if not delivered:
                        res.count("faults not reached")
                    if r.rc == 127 and b"error while loading shared libraries" in r.err:
                        res.count("faults that hit the loader")
                        return
                if kind == "stdout":
                    stdout_data = b""
                judge(case, r, cwd, bool(outdir), label, stdout_data=stdout_data, stderr_lost=stderr_lost, must_fail=must_fail, before_output=before)
                res.count("fault kind " + (kind if kind != "strace" else "failing " + fault[1]))
                res.case(sig(label) if delivered else None, dict(run=label, exit=r.rc, stderr=r.err.decode(errors="replace")[:200]) if rng0.random() < 0.02 else None)
            except Bad as e:
                keep_case("C23", e, re.sub(r"\W+", "-", label)[:60], d, cmd, cwd, text)
                raise
            finally:
                for c in close:
                    c.close()
                for dp, dn, fn in os.walk(d):
                    os.chmod(dp, 0o755)
                shutil.rmtree(d, ignore_errors=True)
        pool(res, [0], lambda _: help_faults(res, exe, root, have_strace), time.time() + 100)
        t = time.time()
        # A slow run must not decide which faults are left out.
        rng0.shuffle(faults)
        done = pool(res, faults, run_fault, time.time() + (600 if THOROUGH else 200))
        res.stages.append(dict(stage="faults", cases=done, of=len(faults), seconds=round(time.time() - t, 1), strace=have_strace))
        log("%d of %d faults" % (done, len(faults)))
    if not res.violations:
        oom = build([("h_toom", "rel", ["lib", "tool", "toolmain", "h_toom.cpp"])])[("h_toom", "rel")]
        sh = Shards(res)
        try:
            sh.run("h_toom/rel", oom, "rel", 0, 8000 if THOROUGH else 800, deadline=time.time() + (120 if THOROUGH else 60))
        finally:
            sh.close()
    return finish(res, "fault_enumeration", RULE23, ["the kernel reports failures to the system call that suffers them; data lost after a successful close is out of reach"])


# --------------------------------------------------------------------------------------------------
# C24

RULE24 = ("In process: random and fixed pairs of paths, split, joined and classified, against the rules of POSIX paths. Executable: configurations in one "
          "directory, run from another, with decoy data of the same names and sizes wherever a wrong resolution would look; output directories that are "
          "new, nested, existing with stale and unrelated files, absolute, linked, with trailing or doubled separators, '.' and '..'; failing runs too. The whole scratch tree is "
          "recorded before and after (type, mode, contents, times of unrelated files), and system calls that create, open for writing, rename or remove are traced. Distinct by command and configuration.")


def snapshot(root):
    snap = {}
    for dp, dn, fn in os.walk(root):
        for x in dn + fn:
            p = os.path.join(dp, x)
            st = os.lstat(p)
            if stat.S_ISREG(st.st_mode):
                snap[p] = ("file", stat.S_IMODE(st.st_mode), st.st_mtime_ns, core._read(p))
            elif stat.S_ISLNK(st.st_mode):
                snap[p] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                snap[p] = ("dir", stat.S_IMODE(st.st_mode))
            else:
                snap[p] = ("other", st.st_mode, st.st_ino)
    return snap


def prefixes(path):
    """All directories mkdir -p would need for path, resolved."""
    r = set()
    p = path
    while p and p != "/":
        r.add(os.path.realpath(p))
        q = os.path.dirname(p)
        if q == p:
            break
        p = q
    return r


def c24():
    res = Result("C24")
    exes = build([("h_tool", "san", ["lib", "tool", "h_tool.cpp"]), ("h_gen", "san", ["lib", "h_gen.cpp"]), ("vfc", "san", ["lib", "tool", "main"]), ("vfc", "rel", ["lib", "tool", "main"])])
    sh = Shards(res)
    try:
        sh.run("h_tool/san (paths)", exes[("h_tool", "san")], "san", 0, 2000000 if THOROUGH else 200000)
    finally:
        sh.close()
    count = 12000 if THOROUGH else 1600
    with Scratch("vfc24-") as root:
        try:
            cases = [c for c in load_cases(exes[("h_gen", "san")], root, 20000, count, 0) if c["verts"]]
        except Bad as e:
            raise CheckError(str(e))
        have_strace = strace_works(root)
        if not have_strace:
            res.notes.append("strace doesn't work here: only the scratch tree is observed")

        def decoy(h, rng):
            b = bytearray(bytes.fromhex(h))
            for k in range(len(b)):
                b[k] ^= 0x55
            return bytes(b)

        def work(case):
            rng = random.Random("%d/C24/%d" % (SEED, case["case"]))
            outer = "%s/%d" % (root, case["case"])  # the output may go to the parent of the working directory
            d = outer + "/top"
            ok = case["ok"] and finite(case)
            for x in ("cfg/sub", "work/sub", "abs", "deep/er", "linked"):
                os.makedirs(d + "/" + x)
            how = rng.choice(["relative", "absolute", "same", "stdin", "below"])
            if how == "stdin":
                cwd, cfg = d + "/work", None
                base = cwd
            elif how == "same":
                cwd, cfg = d + "/cfg", "config.json"
                base = cwd
            elif how == "below":
                cwd, cfg = d, rng.choice(["cfg/config.json", "./cfg/config.json", "cfg//config.json", "work/../cfg/config.json"])
                base = d + "/cfg"
            elif how == "absolute":
                cwd, cfg = d + "/work", d + "/cfg/config.json"
                base = d + "/cfg"
            else:
                cwd, cfg = d + "/work", "../cfg/config.json"
                base = d + "/cfg"
            places = [d, d + "/cfg", d + "/work", d + "/cfg/sub", d + "/work/sub", d + "/abs", d + "/deep", d + "/deep/er"]

            def ref(h, name):
                style = rng.randrange(6)
                if style == 0:
                    r = name
                elif style == 1:
                    r = "sub/" + name
                elif style == 2:
                    r = "./" + name
                elif style == 3:
                    r = "../abs/" + name
                elif style == 4:
                    r = d + "/abs/" + name
                else:
                    return b64(h)
                target = os.path.realpath(os.path.join(base, r))
                for p in places:
                    f = p + "/" + name
                    if f != target and h:
                        write(f, decoy(h, rng))
                write(target, bytes.fromhex(h))
                res.count("data by " + ("absolute" if style == 4 else "relative") + " path")
                return r
            v = [ref(s["v"], "v%d.dat" % i) for i, s in enumerate(case["streams"])]
            x = [ref(s["i"], "i%d.dat" % i) if s["indexType"] != "none" else "" for i, s in enumerate(case["streams"])]
            text = make_config(case, v, x, rng)
            broken = rng.random() < 0.15
            # A named file that isn't where it should be isn't looked for elsewhere.
            names = [os.path.realpath(os.path.join(base, r)) for r in v + x if r and not r.startswith("base64:")]
            missing = None
            if names and not broken and rng.random() < 0.15:
                missing = rng.choice(names)
                os.unlink(missing)
                if rng.random() < 0.3:
                    rng.choice([lambda: os.makedirs(missing), lambda: os.symlink("nowhere", missing), lambda: write(missing, b"")])()
                # What somebody who searches would find: the right data in the wrong places.
                good = {}
                for h, r in [(s["v"], v[i]) for i, s in enumerate(case["streams"])] + [(s["i"], x[i]) for i, s in enumerate(case["streams"])]:
                    if r and not r.startswith("base64:"):
                        good[os.path.basename(r)] = (h, r)
                h, r = good[os.path.basename(missing)]
                for p in places + [d + "/out"] + ([os.path.dirname(os.path.join(q, r)) for q in places if not r.startswith("/")]):
                    f = os.path.realpath(p) + "/" + os.path.basename(missing)
                    if f != missing and f not in names:
                        write(f, bytes.fromhex(h))
                broken = True
                res.count("named files missing, others of that name present")
            if broken and not missing:
                text = rng.choice([lambda: text[:-1], lambda: text.replace(b'"vertexData": "', b'"vertexData": "missing', 1),
                                   lambda: text.replace(b'"vertexStreams"', b'"vertexStream"', 1)])()
            exe = exes[("vfc", "san" if rng.random() < 0.3 else "rel")]
            args = []
            if cfg:
                write(d + "/cfg/config.json", text)
                args = ["-i", cfg]
            outdir = None
            if rng.random() < 0.85:
                outdir = rng.choice(["out", "out/", "a/b/c", "./out", "../elsewhere/x", d + "/abs/new/out", d + "/abs", ".", "..", "sub/../out", "a//b", "out/.",
                                     "link", "link/deeper", d + "/abs/new//", "existing", "existing/", "..//er", "name with spaces/\u00e9",
                                     "-o", "out.dat/vertices.0.dat"])
                od = os.path.join(cwd, outdir)
                if outdir.startswith("link"):
                    os.symlink(d + "/linked", cwd + "/link")
                if outdir.startswith("existing"):
                    os.makedirs(cwd + "/existing/keep")
                    for name in ("vertices.0.dat", "indices.0.dat", "vertices.1.dat"):
                        if rng.random() < 0.6:
                            write(cwd + "/existing/" + name, os.urandom(5000))
                    for name in ("vertices.0.dat.bak", "vertices.9.dat", "other.txt", "keep/vertices.0.dat", "indices.77.dat"):
                        write(cwd + "/existing/" + name, b"keep me")
                args = args + ["-o", outdir] if rng.random() < 0.5 else ["-o", outdir] + args
            before = snapshot(outer)
            cmd = [exe] + args
            real = cmd
            tracing = have_strace and exe == exes[("vfc", "rel")] and rng.random() < 0.5
            if tracing:
                real = ["strace", "-qq", "-f", "-y", "-s", "4096", "-o", root + "/trace%d" % case["case"], "-e",
                        "trace=open,openat,creat,mkdir,mkdirat,unlink,unlinkat,rmdir,rename,renameat,renameat2,link,linkat,symlink,symlinkat,truncate,"
                        "ftruncate,chmod,fchmod,fchmodat,chown,fchown,fchownat,mknod,mknodat,utimensat,chdir,fchdir"] + cmd
            try:
                r = run_tool(real, cwd, text if not cfg else None)
                died = crashed(r)
                if died:
                    raise Bad("crash", "the tool %s: %s" % (died, r.describe()))
                after = snapshot(outer)
                allowed_dirs = prefixes(os.path.join(cwd, outdir)) if outdir else set()
                files = []
                if r.rc == 0:
                    if broken:
                        raise Bad("accepted", "broken configuration accepted: " + r.describe())
                    if not ok:
                        raise Bad("accepted", "exit 0 although the library fails: " + r.describe())
                    files = compare(case, r.out, cwd, bool(outdir))
                    doc = strict_json(r.out)
                    if outdir:
                        rd = os.path.realpath(os.path.join(cwd, outdir))
                        for f in files:
                            if os.path.dirname(os.path.realpath(f)) != rd:
                                raise Bad("outside", "%s isn't in the output directory %s" % (f, outdir))
                        if not os.path.isdir(rd):
                            raise Bad("no-directory", "the output directory doesn't exist")
                    res.count("successful runs compared")
                elif ok and not broken:
                    raise Bad("refused", "a valid conversion fails: " + r.describe())
                else:
                    res.count("failing runs")
                named = {os.path.realpath(f) for f in files}
                rd = os.path.realpath(os.path.join(cwd, outdir)) if outdir else None
                for p in sorted(set(before) | set(after)):
                    b, a = before.get(p), after.get(p)
                    if b == a:
                        continue
                    rp = os.path.realpath(p)
                    if a is None:
                        raise Bad("removed", "%s is gone" % p)
                    if a[0] == "dir" and b is None and rp in allowed_dirs:
                        res.count("directories created")
                        continue
                    if a[0] == "file" and (rp in named or (r.rc != 0 and rd and os.path.dirname(rp) == rd and re.match(r"(vertices|indices)\.\d+\.dat$", os.path.basename(rp)))):
                        res.count("files written")
                        continue
                    raise Bad("side-effect", "%s %s: %r" % (p, "is changed" if b else "is created", a[:2]))
                if tracing:
                    for line in open(root + "/trace%d" % case["case"], errors="replace"):
                        m = re.match(r"(?:\d+ +)?(\w+)\((.*)\) += (-?\d+)", line)
                        if not m or int(m.group(3)) < 0:
                            continue
                        call, a = m.group(1), m.group(2)
                        if call in ("open", "openat") and not re.search(r"O_(WRONLY|RDWR|CREAT|TRUNC)", a):
                            continue
                        paths = re.findall(r'"((?:[^"\\]|\\.)*)"', a)
                        res.count("traced calls that change the file system")
                        if call in ("mkdir", "mkdirat") or call in ("open", "openat", "creat"):
                            p = paths[0].encode("latin1").decode("unicode_escape").encode("latin1").decode("utf-8", "replace")
                            rp = os.path.realpath(os.path.join(cwd, p))
                            if call.startswith("mkdir") and rp in allowed_dirs:
                                continue
                            if not call.startswith("mkdir") and rd and os.path.dirname(rp) == rd:
                                continue
                            if rp in ("/dev/null", "/dev/tty"):
                                continue
                        elif call in ("ftruncate", "fchmod", "fchown") and rd and rd in a:
                            continue
                        elif call in ("rename", "renameat", "renameat2", "unlink", "unlinkat") and rd and all(
                                os.path.dirname(os.path.realpath(os.path.join(cwd, q))) == rd for q in paths):
                            continue
                        elif call in ("chdir", "fchdir"):
                            continue
                        raise Bad("side-effect", "the tool calls %s" % line.strip()[:400])
                res.count("configuration " + how)
                res.case(sig(text, cmd[1:]), dict(command=args, cwd=cwd, exit=r.rc, files=[os.path.relpath(f, d) for f in files]))
            except Bad as e:
                keep_case("C24", e, case["case"], outer, cmd, cwd, None if cfg else text)
                raise
            finally:
                shutil.rmtree(outer, ignore_errors=True)
                try:
                    os.unlink(root + "/trace%d" % case["case"])
                except OSError:
                    pass
        t = time.time()
        if not res.violations:
            done = pool(res, cases, work, time.time() + (600 if THOROUGH else 200))
            res.stages.append(dict(stage="vfc executable", cases=done, of=len(cases), seconds=round(time.time() - t, 1), strace=have_strace))
            log("%d of %d cases" % (done, len(cases)))
    return finish(res, "exploration", RULE24, ["effects outside the scratch tree are only seen where strace works"])


# --------------------------------------------------------------------------------------------------
# C26

RULE26 = ("A generated valid configuration is run as it is (and with changes that mean nothing) and must be accepted with the library's result; then it "
          "is run once for each single fault that applies to it: partial vertices or indices, missing or additional ones, indices just beyond the "
          "vertices, restarts without indices, elements without or with two sources, transforms for no element, infinite bounds, malformed base64, absent "
          "files, wrong arguments. Each must end with exit 1, a diagnostic and nothing on standard output. Distinct by configuration, fault and data.")


def c26():
    res = Result("C26")
    exes = build([("h_gen", "san", ["lib", "h_gen.cpp"]), ("vfc", "san", ["lib", "tool", "main"]), ("vfc", "rel", ["lib", "tool", "main"])])
    count = 5000 if THOROUGH else 420
    isize = {"UInt16": 2, "UInt32": 4}
    step = {"LineList": 2, "TriangleList": 3}

    with Scratch("vfc26-") as root:
        try:
            cases = [c for c in load_cases(exes[("h_gen", "san")], root, 40000, count, 0) if c["ok"] and finite(c) and c["verts"]]
        except Bad as e:
            raise CheckError(str(e))

        def work(case):
            rng = random.Random("%d/C26/%d" % (SEED, case["case"]))
            d = "%s/%d" % (root, case["case"])
            os.makedirs(d)
            last = {}
            outs = {e["name"]: e for o in case["outs"] for e in o}
            used = [i for i, s in enumerate(case["streams"]) if any(e["name"] in outs for e in s["elems"])]
            stride = [sum(SIZES[e["layout"]] for e in s["elems"]) for s in case["streams"]]
            strip = case["prim"] in ("LineStrip", "TriangleStrip", "TriangleFan")
            per = case["patch"] if case["prim"] == "PatchList" else step.get(case["prim"], 1)

            def indices(s):
                b, w = bytes.fromhex(s["i"]), isize[s["indexType"]]
                return [int.from_bytes(b[k:k + w], "little") for k in range(0, len(b), w)]

            def run(what, streams, edit=None, args=None, accept=False, raw=None, absent=None):
                """streams: list of (vertex bytes, index bytes or None)."""
                embed = rng.random() < 0.6
                files = rng.random() < 0.2
                v, x = [], []
                for i, (vd, xd) in enumerate(streams):
                    for data, refs, name in ((vd, v, "v%d.dat" % i), (xd, x, "i%d.dat" % i)):
                        if isinstance(data, str):
                            refs.append(data)
                        elif data is None:
                            refs.append("")
                        elif embed:
                            refs.append(rng.choice(["base64:", "base64:", "BASE64:", "Base64:"]) + base64.b64encode(data).decode())
                        else:
                            write(d + "/" + name, data)
                            refs.append(name)
                text = make_config(case, v, x, rng)
                if edit:
                    c = json.loads(text)
                    edit(c)
                    text = json.dumps(c).encode()
                if raw:
                    text = raw(text)
                stdin = rng.random() < 0.5
                cmd = [exes[("vfc", "rel" if rng.random() < 0.7 else "san")]]
                if not stdin:
                    write(d + "/config.json", text)
                    cmd += ["-i", "config.json"]
                if files:
                    cmd += ["-o", "out"]
                if args:
                    cmd = args(cmd)
                last.update(cmd=cmd, stdin=text if stdin else None)
                r = run_tool(cmd, d, text if stdin else None)
                died = crashed(r)
                if died:
                    raise Bad("crash", "%s: the tool %s: %s" % (what, died, r.describe()))
                if accept:
                    if r.rc != 0:
                        raise Bad("refused", "%s: refused: %s" % (what, r.describe()))
                    compare(case, r.out, d, files)
                    res.count("accepted: " + what)
                else:
                    if r.rc != 1:
                        raise Bad("accepted", "%s: not refused with exit 1: %s" % (what, r.describe()))
                    if not r.err.strip():
                        raise Bad("no-diagnostic", "%s: refused without a diagnostic" % what)
                    if r.out:
                        raise Bad("output-on-failure", "%s: refused with output: %s" % (what, r.describe()))
                    res.count("refused: " + what)
                res.case(sig(what, text, repr(streams)), dict(fault=what, command=cmd[1:], primitive=case["prim"]))

            def base():
                return [(bytes.fromhex(s["v"]), bytes.fromhex(s["i"]) if s["indexType"] != "none" else None) for s in case["streams"]]

            def changed(i, vd=None, xd=None):
                b = base()
                b[i] = (vd if vd is not None else b[i][0], xd if xd is not None else b[i][1])
                return b
            try:
                run("valid", base(), accept=True)

                def junk(c):
                    c["comment"] = {"indexType": "none", "list": [1, None]}
                    for o in c["vertexFormat"][0] + c["vertexStreams"]:
                        o["unknown"] = -1
                run("unknown members", base(), junk, accept=True)
                if "-i" in last["cmd"]:
                    run("long options", base(), args=lambda c: [{"-i": "--input", "-o": "--output"}.get(a, a) for a in c], accept=True)
                for i, s in enumerate(case["streams"]):
                    vd, xd = base()[i]
                    indexed = s["indexType"] != "none"
                    if indexed:
                        run("vertices no index refers to", changed(i, vd + rng.randbytes(stride[i] * rng.randrange(1, 4))), accept=True)
                    if stride[i] > 1:
                        run("part of a vertex too much", changed(i, vd + rng.randbytes(rng.randrange(1, stride[i]))))
                        run("part of a vertex missing", changed(i, vd[:-rng.randrange(1, stride[i])]))
                    run("no vertices", changed(i, b""))
                    if indexed:
                        w = isize[s["indexType"]]
                        run("part of an index too much", changed(i, None, xd + bytes([rng.choice([0, 255])]) * rng.randrange(1, w)))
                        run("part of an index missing", changed(i, None, xd[:-rng.randrange(1, w)]))
                        run("no indices", changed(i, None, b""))
                        if len(case["streams"]) > 1 or per > 1:
                            # Doesn't match the other streams or the primitive.
                            k = rng.randrange(1, per) if per > 1 else 1
                            run("too many indices", changed(i, None, xd + xd[:w] * k))
                            if len(xd) > w * k:
                                run("indices missing", changed(i, None, xd[:-w * k]))
                    elif len(case["streams"]) > 1 or per > 1:
                        k = rng.randrange(1, per) if per > 1 else 1
                        run("too many vertices", changed(i, vd + vd[:stride[i]] * k))
                        if len(vd) > stride[i] * k:
                            run("vertices missing", changed(i, vd[:-stride[i] * k]))
                    if indexed and i in used:
                        w = isize[s["indexType"]]
                        idx = indices(s)
                        n = len(vd) // stride[i]
                        restart = (1 << (8 * w)) - 1
                        real = [k for k, q in enumerate(idx) if not (strip and q == restart)]
                        values = [q for q in (n, n + 1, n + rng.randrange(1000), restart - 1, 1 << (8 * w - 1), 0x10000, 0x10000 + max(0, n - 1), restart)
                                  if n <= q <= restart and not (strip and q == restart)]
                        for q in rng.sample(values, min(2, len(values))) if real else []:
                            b = bytearray(xd)
                            k = rng.choice([real[0], real[-1], rng.choice(real)])
                            b[k * w:k * w + w] = q.to_bytes(w, "little")
                            run("index beyond the vertices", changed(i, None, bytes(b)))
                        if real:
                            top = max(idx[k] for k in real)
                            run("a referenced vertex missing", changed(i, vd[:top * stride[i]]))
                        if strip and case["indexType"] == "none" and n < restart:
                            b = bytearray(xd)
                            k = rng.randrange(len(idx))
                            b[k * w:k * w + w] = restart.to_bytes(w, "little")
                            run("restart without indices to output", changed(i, None, bytes(b)))
                    if i in used and not case["transforms"] or i in used and rng.random() < 0.5:
                        # An infinite value that counts: in the first vertex referenced.
                        offset = 0
                        for e in s["elems"]:
                            if e["name"] in outs and e["type"] == "Float" and e["layout"] in ("X32", "X32Y32", "X32Y32Z32", "X32Y32Z32W32", "X64", "X64Y64Z64"):
                                first = 0
                                if indexed:
                                    real = [q for q in indices(s) if not (strip and q == (1 << (8 * isize[s["indexType"]])) - 1)]
                                    if not real:
                                        break
                                    first = rng.choice(real)
                                b = bytearray(vd)
                                p = first * stride[i] + offset
                                inf = bytes.fromhex(rng.choice(["0000807f", "000080ff"])) if e["layout"].startswith("X32") else bytes.fromhex("000000000000f07f")
                                b[p:p + len(inf)] = inf
                                run("infinite bounds", changed(i, bytes(b)))
                                break
                            offset += SIZES[e["layout"]]
                    t = base64.b64encode(vd).decode()
                    k = rng.randrange(len(t))
                    for what, bad in rng.sample([("space", t[:k] + " " + t[k:]), ("line break", t[:k] + "\n" + t[k:]), ("other character", t[:k] + rng.choice("-_.,:\u00e9*") + t[k + 1:]),
                                                 ("short group", t[:-1]), ("padding inside", t[:k] + "=" + t[k:]), ("trailing text", t + rng.choice("A=")), ("another group", t + "====")], 2):
                        run("base64: " + what, changed(i, "base64:" + bad))
                    run("no such file", changed(i, rng.choice(["missing.dat", "sub/v0.dat", "/nonexistent/v.dat", "base64", "data:AAAA", "base64AAAA"])))
                name = rng.choice(list(outs))

                def rename(c):
                    for s in c["vertexStreams"]:
                        for e in s["vertexFormat"]:
                            if e["name"] == name:
                                e["name"] = "nobody-else's"
                run("output element without a source", base(), rename)
                i = rng.choice(used)

                def twice(c):
                    c["vertexStreams"].append(json.loads(json.dumps(c["vertexStreams"][i])))
                run("two sources for an element", base(), twice)

                def transform(c):
                    others = [e["name"] for s in case["streams"] for e in s["elems"] if e["name"] not in outs] + ["nothing", name + " ", " " + name]
                    if name.swapcase() not in outs:
                        others.append(name.swapcase())
                    c.setdefault("vertexTransforms", []).append({"name": rng.choice([o for o in others if o not in outs]), "transform": rng.choice(["Identity", "Bounds"])})
                run("transform for no element", base(), transform)
                for what, key in (("no vertex format", "vertexFormat"), ("no vertex streams", "vertexStreams")):
                    run(what, base(), lambda c: rng.choice([lambda: c.pop(key), lambda: c.update({key: []})])())
                run("cut short", base(), raw=lambda t: t[:rng.randrange(len(t) - 1)])
                run("text behind the end", base(), raw=lambda t: t + rng.choice([b"{}", b"x", b"]", b","]))
                run("unknown argument", base(), args=lambda c: rng.choice([lambda: c + ["--verbose"], lambda: c + ["config.json"], lambda: [c[0], "-x"] + c[1:],
                                                                           lambda: c + ["-output"], lambda: c + ["--input=config.json"], lambda: c + [""]])())
                # Beginnings of an option, more than an option, and other letter case.
                name = rng.choice(["--input", "--output", "--help", "-i", "-o", "-h"])
                near = rng.choice([name[:rng.randrange(len(name))], name + rng.choice("sh=- x"), name.swapcase(), name[1:], "-" + name, " " + name,
                                   name[:rng.randrange(1, len(name))]])
                run("argument like an option", base(), args=lambda c: c + rng.choice([[near], [near, "out2"]])
                    if near not in ("--input", "--output", "--help", "-i", "-o", "-h") else c + ["-"])
                run("argument missing", base(), args=lambda c: c + [rng.choice(["-i", "-o", "--input", "--output"])])
                run("configuration missing", base(), args=lambda c: [c[0], "-i", rng.choice(["nothing.json", "missing/config.json", "config.json/x"])])
            except Bad as e:
                keep_case("C26", e, case["case"], d, last.get("cmd"), d, last.get("stdin"))
                raise
            finally:
                shutil.rmtree(d, ignore_errors=True)
        t = time.time()
        done = pool(res, cases, work, time.time() + (600 if THOROUGH else 200))
        res.stages.append(dict(stage="single faults", cases=done, of=len(cases), seconds=round(time.time() - t, 1)))
        log("%d of %d configurations" % (done, len(cases)))

        # The help lists what there is.
        for arg in ("-h", "--help"):
            r = run_tool([exes[("vfc", "san")], arg], root)
            text = r.out.decode("utf-8", "replace")
            names = list(SIZES) + ["UNorm", "SNorm", "UInt", "SInt", "Float", "UInt16", "UInt32", "PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip",
                                   "TriangleFan", "PatchList", "Identity", "Bounds", "UNormToSNorm", "SNormToUNorm", "--input", "--output", "--help"]
            missing = [n for n in names if not re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(n), text)]
            if r.rc != 0 or missing or r.err:
                res.violate("help", "the help is wrong: exit %s, missing %s, stderr %r" % (r.rc, missing, r.err[:300]), dict(property="C26", seed=SEED))
            res.case(sig("help", arg))

        # Sizes that don't fit the 32-bit counts of the library.
        big = [("X8", None, (1 << 32) + 3)]
        if THOROUGH:
            big += [("X8", 2, (1 << 33) + 6), ("X16", None, (1 << 33) + 2 * 5)]
        for layout, w, size in big if not res.violations else []:
            need = size * 3 + (2 << 30)
            free = int(re.search(r"MemAvailable: +(\d+)", open("/proc/meminfo").read()).group(1)) * 1024
            st = os.statvfs(root)
            if free < need:
                res.notes.append("not enough memory for %d bytes of data" % size)
                continue
            write(root + "/small.dat", bytes(range(6)))
            try:
                with open(root + "/big.dat", "wb") as f:
                    f.truncate(size)
            except OSError as e:
                res.notes.append("can't make a sparse file: %s" % e)
                continue
            c = {"vertexFormat": [[{"name": "a", "layout": layout, "type": "UInt"}]], "primitiveType": "PointList",
                 "vertexStreams": [{"vertexFormat": [{"name": "a", "layout": layout, "type": "UInt"}], "vertexData": "big.dat"}]}
            if w:
                c["vertexStreams"][0].update(vertexData="small.dat", indexType="UInt16", indexData="big.dat")
            r = run_tool([exes[("vfc", "rel")]], root, json.dumps(c).encode(), timeout=300)
            os.unlink(root + "/big.dat")
            what = "%d %s" % (size // (w or SIZES[layout]), "indices" if w else "vertices")
            if r.timeout:
                res.notes.append(what + " take too long")
                continue
            if r.rc != 1 or r.out or not r.err:
                res.violate("count-overflow", "%s: not refused: %s" % (what, r.describe()), dict(property="C26", config=c, size=size))
            res.count("counts beyond 32 bits refused")
            res.case(sig("big", layout, w, size))
    return finish(res, "exploration", RULE26, ["what makes an input valid is judged by the rules of the README and the library's documentation"])
