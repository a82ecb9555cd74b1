"""Building the code under test with instrumentation, running the monitors over it and reporting."""
import concurrent.futures
import glob
import hashlib
import json
import mmap
import os
import shutil
import struct
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VFC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
HARNESS = os.path.join(VERIF, "harness")
JOBS = max(2, min(8, os.cpu_count() or 2))

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

START = time.time()


class CheckError(Exception):
    """The check could not give an answer."""


def log(msg):
    print("[%6.1f] %s" % (time.time() - START, msg), flush=True)


# --------------------------------------------------------------------------------------------------
# Building

VARIANTS = {
    # Memory errors, undefined behaviour, library and repository assertions. gcc rather than clang: clang's
    # alignment check also rejects memcpy() through typed pointers, which the library uses on purpose.
    "san": dict(cxx="g++", flags="-O1 -g -fsanitize=address,undefined,float-cast-overflow "
                "-fno-sanitize=nonnull-attribute -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -D__NO_CTYPE", link="-fsanitize=address,undefined"),
    # Checked iterators and containers.
    "dbg": dict(cxx="g++", flags="-O1 -g -fsanitize=address,undefined,float-cast-overflow "
                "-fno-sanitize=nonnull-attribute -fno-sanitize-recover=all -D_GLIBCXX_DEBUG -D__NO_CTYPE", link="-fsanitize=address,undefined"),
    # What users run.
    "rel": dict(cxx="g++", flags="-O2 -DNDEBUG", link=""),
    "relfill": dict(cxx="g++", flags="-O2 -DNDEBUG -DMON_FILL", link=""),
    "clangrel": dict(cxx="clang++", flags="-O3 -DNDEBUG", link=""),
    # Every block of code calls a counter. The C library's memory functions are replaced, so they can't be built in.
    "count": dict(cxx="g++", flags="-O1 -g -DNDEBUG -fno-builtin -fsanitize-coverage=trace-pc", link="-rdynamic"),
    "vg": dict(cxx="g++", flags="-O1 -g", link=""),
    "tsan": dict(cxx="g++", flags="-O1 -g -fsanitize=thread -pthread", link="-fsanitize=thread -pthread"),
    "clangtsan": dict(cxx="clang++", flags="-O2 -g -fsanitize=thread -pthread", link="-fsanitize=thread -pthread"),
}


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def _tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(_read(p))
    return h.hexdigest()


def sources():
    lib = sorted(glob.glob(REPO + "/lib/src/**/*.cpp", recursive=True))
    tool = sorted(glob.glob(REPO + "/tool/*.cpp"))
    if not lib or not tool:
        raise CheckError("no sources in " + REPO)
    return lib, tool


def headers():
    r = []
    for pat in ("/lib/include/**/*", "/lib/src/**/*", "/tool/*"):
        r += [p for p in glob.glob(REPO + pat, recursive=True) if os.path.isfile(p) and not p.endswith(".cpp")]
    r += glob.glob(HARNESS + "/*.h")
    return r + glob.glob(REPO + "/lib/src/HalfFloat.cpp") # included by soft_half.cpp


_gen_lock = threading.Lock()


def include_flags():
    gen = os.path.join(BUILD, "gen")
    with _gen_lock:
        os.makedirs(gen + "/VFC", exist_ok=True)
        p = gen + "/VFC/Export.h"
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write("#pragma once\n#define VFC_EXPORT\n")
    flags = ["-I" + gen, "-I" + REPO + "/lib/include", "-I" + REPO + "/lib/src", "-I" + REPO + "/tool", "-I" + HARNESS]
    rj = REPO + "/tool/rapidjson/include"
    if os.path.isdir(rj):
        flags.append("-isystem" + rj)
    return flags + ["-isystem", "/opt/vp/deps/include"]


def compile_object(src, variant, header_hash, extra=""):
    v = VARIANTS[variant]
    flags = "-w -std=c++14 " + v["flags"] + (" " + extra if extra else "")
    key = hashlib.sha256(("%s|%s|%s|%s" % (v["cxx"], flags, src, header_hash)).encode() + _read(src)).hexdigest()[:32]
    os.makedirs(BUILD + "/obj", exist_ok=True)
    obj = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src), key)
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    p = subprocess.run([v["cxx"]] + flags.split() + include_flags() + ["-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise CheckError("can't compile %s (%s):\n%s" % (src, variant, p.stdout.decode(errors="replace")[:3000]))
    os.rename(tmp, obj)
    return obj


def prune(limit=3 << 30):
    """Drops the oldest build products when they take too much space."""
    files = []
    for d, _, names in os.walk(BUILD):
        for f in names:
            if f.endswith(".o") or os.path.basename(d) == "bin":
                try:
                    st = os.stat(os.path.join(d, f))
                    files.append((st.st_mtime, st.st_size, os.path.join(d, f)))
                except OSError:
                    pass
    total = sum(f[1] for f in files)
    for mtime, size, path in sorted(files):
        if total <= limit or mtime > time.time() - 3600:
            break
        try:
            os.unlink(path)
            total -= size
        except OSError:
            pass


def build(programs):
    """programs: list of (name, variant, parts) with parts a list of 'lib', 'tool', 'main', 'toolmain' or harness file
    names. 'main' is the tool's own main, 'toolmain' the same renamed to vfcToolMain. Returns {(name, variant): path}."""
    t0 = time.time()
    prune()
    lib, tool = sources()
    hh = _tree_hash(headers())
    todo = {}
    plan = []
    for name, variant, parts in programs:
        srcs = []
        for part in parts:
            if part == "lib":
                srcs += [(s, None) for s in lib]
            elif part == "softlib":
                srcs += [(s, None) for s in lib if os.path.basename(s) != "HalfFloat.cpp"]
            elif part == "tool":
                srcs += [(s, None) for s in tool if os.path.basename(s) != "main.cpp"]
            elif part == "main":
                srcs += [(REPO + "/tool/main.cpp", None)]
            elif part == "toolmain":
                srcs += [(REPO + "/tool/main.cpp", "rename")]
            else:
                srcs += [(HARNESS + "/" + part, None)]
        for s, _ in srcs:
            todo[(s, variant)] = None
        plan.append((name, variant, srcs))
    # The biggest sources first.
    order = sorted(todo, key=lambda k: -os.path.getsize(k[0]) - (10 ** 6 if k[0].startswith(HARNESS) else 0))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {k: ex.submit(compile_object, k[0], k[1], hh) for k in order}
        for k, f in futs.items():
            todo[k] = f.result()
    result = {}
    os.makedirs(BUILD + "/bin", exist_ok=True)
    for name, variant, srcs in plan:
        objs = []
        for s, how in srcs:
            o = todo[(s, variant)]
            if how == "rename":
                r = o[:-2] + ".renamed.o"
                if not os.path.exists(r):
                    tmp = r + ".%d.tmp" % os.getpid()
                    subprocess.run(["objcopy", "--redefine-sym", "main=vfcToolMain", o, tmp], check=True)
                    os.rename(tmp, r)
                o = r
            objs.append(o)
        key = hashlib.sha256("|".join(objs).encode()).hexdigest()[:16]
        path = "%s/bin/%s-%s-%s" % (BUILD, name, variant, key)
        if os.path.exists(path):
            os.utime(path)
        else:
            v = VARIANTS[variant]
            tmp = path + ".%d.tmp" % os.getpid()
            p = subprocess.run([v["cxx"]] + objs + v["link"].split() + ["-o", tmp], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise CheckError("can't link %s (%s):\n%s" % (name, variant, p.stdout.decode(errors="replace")[:3000]))
            os.rename(tmp, path)
        result[(name, variant)] = path
    log("built %s in %.1f s" % (", ".join("%s/%s" % (n, v) for n, v, _ in plan), time.time() - t0))
    return result


# --------------------------------------------------------------------------------------------------
# Results

class Result:
    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.sigs = set()
        self.counters = {}
        self.samples = []
        self.violations = []  # dict(key, message, replay)
        self.known = {}
        self.stages = []
        self.notes = []
        self.lock = threading.Lock()

    def count(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n

    def violate(self, key, message, replay=None):
        with self.lock:
            self.violations.append(dict(key=key, message=message, replay=replay))

    def case(self, sig=None, sample=None):
        with self.lock:
            self.evaluations += 1
            if sig is not None:
                self.sigs.add(sig)
            if sample is not None and len(self.samples) < 4:
                self.samples.append(sample)

    def merge(self, data, label):
        with self.lock:
            self.evaluations += data["evaluations"]
            self.sigs.update((label, s) for s in data["sigs"])
            for k, n in data["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + n
            for k, w in data["known"].items():
                self.known.setdefault(k, w)
            for s in data["samples"]:
                if len(self.samples) < 4:
                    self.samples.append(s)


def clean_env(**extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "TSAN_", "LSAN_", "MALLOC_", "GLIBCXX_", "LD_"))}
    env["ASAN_OPTIONS"] = "detect_leaks=0:quarantine_size_mb=16:allocator_may_return_null=0:abort_on_error=0:hard_rss_limit_mb=3000:exitcode=77"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    env["LC_ALL"] = "C"
    env.update(extra)
    return env


class Shards:
    """Runs one harness over a range of cases in parallel processes and attributes crashes to cases."""

    def __init__(self, result, check=None):
        self.res = result
        self.check = check or result.prop
        self.work = os.path.join(OUT, "work-%s-%d" % (result.prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.n = 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def command(self, exe, begin, end, state, out, wrap=(), extra=None):
        if not wrap and "-rel" in os.path.basename(exe) and shutil.which("prlimit"):
            wrap = ("prlimit", "--data=%d" % (4 << 30))
        cmd = list(wrap) + [exe, "--check", self.check, "--tier", TIER, "--seed", str(SEED), "--begin", str(begin),
                            "--end", str(end), "--state", state, "--out", out]
        if extra is not None:
            cmd += ["--extra", extra]
        return cmd

    def once(self, exe, begin, end, timeout, env=None, wrap=(), extra=None):
        """Returns (kind, data): kind is ok, violation, crash, timeout or error."""
        with self.res.lock:
            self.n += 1
            base = "%s/r%d" % (self.work, self.n)
        state, out = base + ".state", base + ".json"
        with open(base + ".log", "wb") as lf:
            p = subprocess.Popen(self.command(exe, begin, end, state, out, wrap, extra), stdin=subprocess.DEVNULL,
                                 stdout=lf, stderr=subprocess.STDOUT, env=env or clean_env(), cwd=self.work,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
                rc = None
        text = _read(base + ".log").decode(errors="replace")
        case = None
        note = ""
        if os.path.exists(state):
            raw = _read(state)
            if len(raw) >= 16:
                case = struct.unpack("<Q", raw[:8])[0] - 1
                note = raw[16:].split(b"\0")[0].decode(errors="replace")
        data = None
        if rc in (0, 1) and os.path.exists(out):
            try:
                data = json.loads(_read(out))
            except ValueError:
                data = None
        for suffix in (".state", ".json", ".log"):
            try:
                os.unlink(base + suffix)
            except OSError:
                pass
        if data is not None:
            return ("violation" if data["violations"] else "ok"), data
        if rc is None:
            return "timeout", dict(case=case, note=note, text=text)
        if rc in (64, 70):
            return "error", dict(case=case, note=note, text=text)
        return "crash", dict(case=case, note=note, text=text, rc=rc)

    def run(self, label, exe, variant, begin, end, chunk=None, timeout=90, env=None, wrap=(), deadline=None, extra=None,
            ignore_crash=False):
        total = end - begin
        if total <= 0:
            return
        chunk = chunk or max(1, (total + JOBS * 3 - 1) // (JOBS * 3))
        ranges = [(b, min(end, b + chunk)) for b in range(begin, end, chunk)]
        t0 = time.time()
        stop = threading.Event()
        done = [0]

        def work(k):
            b, e = ranges[k]
            if stop.is_set() or (deadline and time.time() > deadline):
                return
            x = extra(b) if callable(extra) else extra
            kind, d = self.once(exe, b, e, timeout, env, wrap, x)
            if kind == "timeout":
                # A slow machine is not a hang: only the case that was running counts, with more time.
                kind2, d2 = ("timeout", d) if d["case"] is None else self.once(exe, d["case"], d["case"] + 1, timeout, env, wrap, x)
                if kind2 == "timeout":
                    stop.set()
                    self.report(label, exe, variant, d.get("case"), "hang", "case doesn't finish within %d s" % timeout, d, wrap, env)
                    return
                if kind2 == "ok":
                    self.res.notes.append("%s: cases %d to %d took longer than %d s, skipped" % (label, b, e, timeout))
                    return
                kind, d = kind2, d2
            if kind == "error":
                raise CheckError("%s: harness error: %s" % (label, d["text"][-2000:]))
            if kind in ("ok", "violation"):
                setup = [v for v in d["violations"] if v["key"] == "setup" and v["message"].startswith(("can't", "unknown check"))]
                if setup:
                    raise CheckError("%s: %s" % (label, setup[0]["message"][:1000]))
                self.res.merge(d, self.check)
                done[0] += d["evaluations"]
                for v in d["violations"]:
                    self.report(label, exe, variant, v["case"], v["key"], v["message"], None, wrap, env)
                if d["violations"]:
                    stop.set()
                return
            # Crash: confirm with the single case, then with the shard.
            if ignore_crash:
                return
            c = d["case"]
            confirmed = None
            if c is not None and c >= 0:
                k1, d1 = self.once(exe, c, c + 1, timeout, env, wrap, x)
                if k1 == "crash":
                    confirmed = (c, c + 1, d1)
            if confirmed is None:
                k1, d1 = self.once(exe, b, e, timeout, env, wrap, x)
                if k1 == "crash":
                    confirmed = (b, e, d1)
            if confirmed is None:
                # Not reproducible: killed from outside (memory), or a genuine but rare event.
                if d.get("rc") == -9:
                    raise CheckError("%s: killed: out of memory?" % label)
                confirmed = (b, e, d)
            stop.set()
            self.report(label, exe, variant, confirmed[0], "crash", crash_summary(confirmed[2]), confirmed[2], wrap, env,
                        end=confirmed[1])

        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(work, k) for k in range(len(ranges))]:
                f.result()
        self.res.stages.append(dict(stage=label, variant=variant, cases=done[0], of=total, seconds=round(time.time() - t0, 1)))
        log("%s: %d of %d cases in %.1f s" % (label, done[0], total, time.time() - t0))

    def report(self, label, exe, variant, case, key, message, data, wrap, env, end=None):
        replay = dict(property=self.res.prop, stage=label, variant=variant, seed=SEED, tier=TIER, case=case,
                      key=key, message=message[:20000])
        if case is not None:
            replay["command"] = self.command(exe, case, end or case + 1, "/tmp/vfc-replay.state", "/tmp/vfc-replay.json", wrap)
        if data:
            replay["note"] = data.get("note")
            replay["output"] = data.get("text", "")[:8000]
        self.res.violate(key, "%s: case %s: %s" % (label, case, message), replay)


def crash_summary(d):
    text = d.get("text", "")
    for line in text.splitlines():
        if any(s in line for s in ("runtime error:", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "Assertion",
                                   "terminate called", "Error: attempt to", "uninitialised")):
            return "exit %s: %s" % (d.get("rc"), line.strip()[:400])
    return "exit %s: %s" % (d.get("rc"), text.strip()[:400])


# --------------------------------------------------------------------------------------------------
# Finishing

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.loads(_read(p))["findings"]


def finish(res, level, rule, assumptions=(), exhaustive=False):
    listed = {k["key"]: k for k in load_known() if k["property"] == res.prop and k["status"] == "known"}
    known_lines = []
    for k, what in sorted(res.known.items()):
        if k in listed:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (res.prop, listed[k]["what"]))
        else:
            res.violate(k, what, dict(property=res.prop, key=k, message=what, seed=SEED, tier=TIER))
    d = os.path.join(OUT, res.prop)
    shutil.rmtree(d, ignore_errors=True)
    shown = []
    seen = set()
    for v in res.violations:
        if v["key"] in seen or len(shown) >= 5:
            continue
        seen.add(v["key"])
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "replay-%d.json" % len(shown))
        with open(path, "w") as f:
            json.dump(v["replay"] or dict(property=res.prop, key=v["key"], message=v["message"]), f, indent=1)
        shown.append((v, path))
    coverage = dict(evaluations=res.evaluations, distinct_nontrivial=len(res.sigs), rule=rule,
                    samples=[s if isinstance(s, (dict, list)) else str(s)[:1500] for s in res.samples],
                    observed={k: res.counters[k] for k in sorted(res.counters)}, stages=res.stages)
    if exhaustive:
        coverage["exhaustive"] = True
    if res.notes:
        coverage["notes"] = res.notes[:20]
    ev = dict(property=res.prop, tier=TIER, seed=SEED, level=level, coverage=coverage,
              assumptions=list(assumptions), wall_s=round(time.time() - START, 2), violations=len(res.violations))
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    tmp = VERIF + "/evidence/%s.json.tmp" % res.prop
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, VERIF + "/evidence/%s.json" % res.prop)
    for line in known_lines:
        print(line)
    for v, path in shown:
        print("%s: %s" % (v["key"], v["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (res.prop, path))
    if not shown and res.evaluations == 0:
        raise CheckError("nothing was explored")
    log("%s: %d evaluations, %d distinct, %d violations" % (res.prop, res.evaluations, len(res.sigs), len(res.violations)))
    return 1 if shown else 0
