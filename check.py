#!/usr/bin/env python3
"""check.py <property> runs the check of one property (VERIF_SEED, VERIF_TIER); check.py --replay FILE repeats a violation."""
import json
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
from core import Result, Shards, CheckError, build, clean_env, finish, log, TIER, SEED

THOROUGH = TIER == "thorough"
ASSUME = ["gcc 13, x86-64 Linux, little endian; the sanitizers of gcc report what they document",
          "evidence holds for the executions observed, not beyond them"]


def budget(quick, thorough):
    return time.time() + (thorough if THOROUGH else quick)


def n(quick, thorough):
    return thorough if THOROUGH else quick


MESH_RULE = ("Case i of seed s is a mesh generated from (s, property, i): primitive type, formats of 1-3 output and 1-4 input streams, "
             "indices with sharing, degenerates and restarts, transforms, max index value from the smallest legal up; every 400th to 800th "
             "case of some properties exceeds 65536 vertices. It is converted by the real code and judged against the model in mesh.h. "
             "Non-trivial: the conversion ran and the oracle compared at least one primitive, vertex or value; distinct by a hash of the whole input.")


def harness_check(prop, harness, stages, rule, level="exploration", parts=("lib",), exhaustive=False, assume=(), variants_env=None, limit=780):
    """stages: list of (variant, begin, count quick, count thorough)."""
    res = Result(prop)
    sh = Shards(res)
    try:
        name = harness[:-4]
        stages = [s for s in stages if n(s[2], s[3]) > 0]
        exes = build([(name, v, list(parts) + [harness]) for v in dict.fromkeys(s[0] for s in stages)])
        deadline = budget(240, limit)
        for variant, begin, q, t in stages:
            sh.run("%s/%s" % (name, variant), exes[(name, variant)], variant, begin, begin + n(q, t), deadline=deadline)
            if res.violations:
                break
        return res, sh, exes
    finally:
        sh.close()


def available_gb():
    try:
        for line in open("/proc/meminfo"):
            if line.startswith("MemAvailable"):
                return int(line.split()[1]) / (1 << 20)
    except OSError:
        pass
    return 0


def huge(res, cases, need, name="h_huge", parts=("lib",), limit=True, timeout=400):
    """Data of more than 4 GB, one case at a time."""
    cases = list(cases)
    if not cases or res.violations:
        return
    exe = build([(name, "rel", list(parts) + [name + ".cpp"])])[(name, "rel")]
    sh = Shards(res)
    label = name + "/rel"
    try:
        for i in cases:
            if available_gb() < need + 2:
                res.notes.append("%s case %d skipped: needs %d GB of memory" % (name, i, need))
                continue
            # Where more is reserved than used, only the machine's memory is a limit.
            wrap = ("prlimit", "--data=%d" % (need << 30)) if limit and shutil.which("prlimit") else ("env",)
            kind, d = sh.once(exe, i, i + 1, timeout, wrap=wrap)
            if kind in ("ok", "violation"):
                res.merge(d, res.prop)
                for v in d["violations"]:
                    sh.report(label, exe, "rel", v["case"], v["key"], v["message"], None, wrap, None)
            elif kind == "crash" and d.get("rc") != -9:
                sh.report(label, exe, "rel", i, "crash", core.crash_summary(d), d, wrap, None, end=i + 1)
            elif kind == "error":
                raise CheckError("%s: harness error: %s" % (label, d["text"][-2000:]))
            else:
                res.notes.append("%s case %d without an answer: %s" % (name, i, kind))
            log("%s case %d: %s" % (label, i, kind))
            if res.violations:
                break
    finally:
        sh.close()


def mesh_check(prop, san=(24000, 300000), rel=(300000, 3000000), hugeCases=(0, 0), need=12, limit=True, timeout=400):
    res, _, _ = harness_check(prop, "h_mesh.cpp", [("san", 0, *san), ("rel", 1000000, *rel)], MESH_RULE,
                              limit=780 - timeout*hugeCases[1]//2 if hugeCases[1] != 1 else 780 - timeout)
    huge(res, range(n(*hugeCases)), need, limit=limit, timeout=timeout)
    rule = MESH_RULE
    if n(*hugeCases):
        rule += " Cases of h_huge have more than 4 GB of output, more than 2^32 output indices or more vertices than a base vertex can express."
    return finish(res, "exploration", rule, ASSUME)


CODEC_RULE = ("Case i covers format i mod F (all F legal layout/type pairs) and chunk i div F of it: the first chunks enumerate every code "
              "of every component (all 2^8..2^16 codes, boundary codes of the wider ones) and the rest are drawn at random, including "
              "NaN, infinities, denormals, ties and neighbours of representable values; expected values come from the exact arithmetic in "
              "refcodec.h. Buffers end where the element ends, at every alignment. Non-trivial: at least one value was decoded or encoded; "
              "distinct by (format, chunk contents).")


def codec_check(prop, san, rel):
    res, sh, _ = harness_check(prop, "h_codec.cpp", [("san", 0, *san), ("rel", 500000, *rel)], CODEC_RULE)
    if not res.violations:
        # The software half float path, where the sources still allow replacing the hardware one.
        try:
            exe = build([("h_codec_soft", "rel", ["softlib", "soft_half.cpp", "h_codec.cpp"])])[("h_codec_soft", "rel")]
        except CheckError as e:
            res.notes.append("software half float variant not built: " + str(e)[:200])
            exe = None
        if exe:
            sh = Shards(res)
            try:
                sh.run("h_codec/soft-half", exe, "rel", 0, n(600, 6000), deadline=budget(120, 400))
            finally:
                sh.close()
    return finish(res, "exploration", CODEC_RULE, ASSUME)


API_RULE = ("Case i is a random sequence of calls on the real objects, judged after every call by a model that keeps the expected state; "
            "cases 0 and 1 enumerate the name and rule tables completely. Distinct by a hash of the sequence; non-trivial: at least one "
            "call was compared.")


def api_check(prop, san, rel):
    res, _, _ = harness_check(prop, "h_api.cpp", [("san", 0, *san), ("rel", 1000000, *rel)], API_RULE)
    return finish(res, "exploration", API_RULE, ASSUME)


def c16():
    res = Result("C16")
    rule = ("The workloads of the other library properties (meshes, hostile indices, codecs over every format and value class, call "
            "sequences including misuse) under AddressSanitizer, UndefinedBehaviorSanitizer with float-cast-overflow, libstdc++ and repository "
            "assertions, and again with checked iterators (-D_GLIBCXX_DEBUG). The oracle is the instrumentation: any report, abort, "
            "exception or signal. Non-trivial: the case reached the library; distinct by a hash of the input.")
    progs = [("h_mesh", "san", ["lib", "h_mesh.cpp"]), ("h_api", "san", ["lib", "h_api.cpp"]), ("h_codec", "san", ["lib", "h_codec.cpp"]),
             ("h_mesh", "dbg", ["lib", "h_mesh.cpp"]), ("h_api", "dbg", ["lib", "h_api.cpp"])]
    exes = build(progs)
    deadline = budget(300, 780)
    plan = [("h_api", "san", "C16", 0, 6000, 150000), ("h_mesh", "san", "C16", 0, 8000, 150000), ("h_mesh", "san", "C15", 0, 8000, 150000),
            ("h_codec", "san", "C08", 0, 700, 6000), ("h_codec", "san", "C09", 0, 700, 6000), ("h_codec", "san", "C11", 0, 700, 6000),
            ("h_mesh", "dbg", "C16", 500000, 2000, 30000), ("h_api", "dbg", "C16", 500000, 2000, 40000)]
    env = clean_env(MON_MEMORY_ONLY="1")
    leaks = clean_env(MON_MEMORY_ONLY="1")
    leaks["ASAN_OPTIONS"] = leaks["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    probe = subprocess.run([exes[("h_api", "san")], "--check", "C13", "--begin", "9", "--end", "10"], env=leaks, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b"LeakSanitizer has encountered a fatal error" in probe.stdout:
        leaks = env
        res.notes.append("LeakSanitizer can't run here: leaks aren't looked for")
    else:
        res.count("leak detection active")
    for name, variant, check, begin, q, t in plan:
        sh = Shards(res, check)
        try:
            sh.run("%s/%s(%s)" % (name, variant, check), exes[(name, variant)], variant, begin, begin + n(q, t), deadline=deadline,
                   env=leaks if variant == "san" else env)
        finally:
            sh.close()
        if res.violations:
            break
    res.known = {}
    return finish(res, "exploration", rule, ASSUME)


def c17():
    res = Result("C17")
    rule = ("Case i is a generated mesh converted several times in one process: from other addresses and alignments, after other "
            "conversions, with the memory between elements and behind buffers changed, with fresh heap memory filled with different "
            "patterns; inputs are checksummed before and after. Digests of the results are then compared between processes: two "
            "malloc fill patterns, optimised and sanitized builds; valgrind tracks whether any output byte is undefined. Distinct by a hash of "
            "the mesh; non-trivial: at least two conversions were compared.")
    exes = build([("h_det", "san", ["lib", "h_det.cpp"]), ("h_det", "relfill", ["lib", "h_det.cpp"]), ("h_det", "vg", ["lib", "h_det.cpp"])])
    sh = Shards(res)
    import array
    digests = {}

    def stage(label, variant, begin, count, env=None, wrap=(), digest=True, timeout=120):
        files = {}

        def extra(b):
            files[b] = "%s/%s.%d" % (sh.work, label, b)
            return files[b]
        sh.run("h_det/" + label, exes[("h_det", variant)], variant, begin, begin + count, env=env, wrap=wrap, timeout=timeout,
               extra=extra if digest else None, deadline=budget(150, 600))
        if digest:
            d = {}
            for f in files.values():
                if os.path.exists(f):
                    a = array.array("Q")
                    a.frombytes(open(f, "rb").read())
                    d.update(zip(a[0::2], a[1::2]))
            digests[label] = d
    try:
        N = n(30000, 300000)
        stage("perturb-a", "relfill", 0, N, env=clean_env(MALLOC_PERTURB_="90"))
        stage("perturb-b", "relfill", 0, N, env=clean_env(MALLOC_PERTURB_="165", MON_FILL="1"))
        stage("sanitized", "san", 0, N)
        names = list(digests)
        for other in names[1:]:
            for i, d in digests[names[0]].items():
                if i in digests[other]:
                    res.count("digests compared between processes")
                    if digests[other][i] != d:
                        res.violate("differs-between-runs", "case %d gives different results in %s and %s" % (i, names[0], other),
                                    dict(property="C17", case=i, seed=SEED))
                        break
        if not res.violations:
            if subprocess.run(["valgrind", "--version"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
                stage("valgrind", "vg", 5000000, n(1200, 20000), wrap=("valgrind", "-q", "--error-exitcode=9"), digest=False, timeout=300)
            else:
                res.notes.append("valgrind isn't available: definedness only through fill patterns")
        return finish(res, "exploration", rule, ASSUME)
    finally:
        sh.close()


def c18():
    res = Result("C18")
    rule = ("Each case starts threads that create formats, values and converters of their own over shared read-only meshes and formats, "
            "released together by a barrier with random delays, under ThreadSanitizer; each thread's results are compared with the ones "
            "computed alone. Many short processes make the first use of everything concurrent too. Distinct by a hash of the workload; "
            "non-trivial: at least two threads ran and were compared.")
    exes = build([("h_thr", "tsan", ["lib", "h_thr.cpp"]), ("h_thr", "clangtsan", ["lib", "h_thr.cpp"])])
    sh = Shards(res)
    try:
        deadline = budget(200, 780)
        for variant, begin, q, t, chunk in (("tsan", 0, 160, 2000, 2), ("clangtsan", 1000, 160, 2000, 2), ("tsan", 100000, 1600, 20000, 50)):
            sh.run("h_thr/%s chunk %d" % (variant, chunk), exes[("h_thr", variant)], variant, begin, begin + n(q, t), chunk=chunk, deadline=deadline)
            if res.violations:
                break
        return finish(res, "exploration", rule, ASSUME + ["ThreadSanitizer sees the accesses of the schedules that occurred"])
    finally:
        sh.close()


TOOL_PARTS = ("lib", "tool")


def c19():
    rule = ("Cases 0-191 enumerate: every input of up to two bytes, every byte value at every position of the first, middle and last group "
            "with 0-2 pads, all strings of up to five characters over one representative per character class; the rest are random data and mutated "
            "encodings. Compared with a bit-by-bit reference; strings end where their memory ends (AddressSanitizer). Distinct by case.")
    res, _, _ = harness_check("C19", "h_tool.cpp", [("san", 0, 3000, 60000), ("rel", 1000000, 20000, 400000)], rule, parts=TOOL_PARTS)
    return finish(res, "exploration", rule, ASSUME)


def c20():
    rule = ("Three kinds of cases in turn: a random model rendered as a configuration with random member order, white space, escapes, enum case "
            "and aliases, which must load as exactly the model; the same broken in one place (32 kinds of violations in turn), which "
            "must be refused with a message that starts with the file name; and one with a syntax error at a known place, whose line and "
            "column must be reported. Loaded from memory, a stream and a file. Distinct by text. The thorough tier loads a configuration with a string of more than 4 GB as well.")
    res, _, _ = harness_check("C20", "h_tool.cpp", [("san", 0, 36000, 600000), ("rel", 2000000, 60000, 1500000)], rule, parts=TOOL_PARTS, limit=700)
    huge(res, n((), (0,)), 14, "h_hugetool", TOOL_PARTS, False)
    return finish(res, "exploration", rule, ASSUME)


def c21():
    rule = ("A valid generated configuration with its data, made hostile in one of eight ways in turn: bytes or tokens of the configuration, vertex "
            "data, index data, base64 text, odd file system objects as paths, extreme structure and arguments. The tool's own main runs on it in a child process "
            "under AddressSanitizer and UndefinedBehaviorSanitizer; judged by exit status, diagnostics, output and time. Distinct by input.")
    res = Result("C21")
    exes = build([("h_fuzz", "san", ["lib", "tool", "toolmain", "h_fuzz.cpp"])])
    sh = Shards(res)
    try:
        sh.run("h_fuzz/san", exes[("h_fuzz", "san")], "san", 0, n(16000, 300000), chunk=n(500, 1000), timeout=200, deadline=budget(300, 780))
        return finish(res, "exploration", rule, ASSUME + ["paths name no endless or blocking source (FIFO without writer, /dev/zero)"])
    finally:
        sh.close()


def c25():
    rule = ("Random formats with names from all of UTF-8, any finite bounds (denormals, extremes, -0), counts over the full integer ranges, data references "
            "and index buffers are printed and parsed back by an independent strict parser; every value is compared exactly. Distinct by document. "
            "Cases of h_hugetool have strings of 716 MB to (thorough) more than 4 GB.")
    res, _, _ = harness_check("C25", "h_tool.cpp", [("san", 0, 8000, 150000), ("rel", 1000000, 24000, 500000)], rule, parts=TOOL_PARTS, limit=640)
    huge(res, n((1,), (1, 3, 5)), 6, "h_hugetool", TOOL_PARTS, False)
    huge(res, n((), (0, 2)), 14, "h_hugetool", TOOL_PARTS, False)
    return finish(res, "exploration", rule, ASSUME)


def c27():
    rule = ("Case i is a random kind of input (primitive, access pattern, regular or random data, formats, index limit; base64, configurations, result documents, the whole "
            "tool) processed at a small size and at one 32 times (thorough: 128 times) as large. The code is compiled to count every block entered; bytes moved by the C library and heap memory are "
            "counted as well, so the judgement doesn't depend on time. Distinct by input.")
    res = Result("C27")
    exes = build([("h_work", "count", ["lib", "tool", "toolmain", "h_work.cpp", "workcount.cpp"])])
    sh = Shards(res)
    try:
        sh.run("h_work/count", exes[("h_work", "count")], "count", 0, n(2000, 12000), chunk=n(80, 60), timeout=300, deadline=budget(200, 700))
    finally:
        sh.close()
    return finish(res, "exploration", rule, ["proportional: at most 2.5 times as much per unit of input at the larger size"])


def c28():
    rule = ("Each case makes 160 index accesses of every type (and of no type) in buffers ending where the accessible memory ends, 12 in a sparse one with positions around the powers of two up to 2^32, 60 values with their "
            "copies, comparisons and bounds over up to six values drawn from all doubles, and stores 60 values of one format with and without bounds. "
            "The results are those of byte-wise and componentwise models. Distinct by case.")
    res, _, _ = harness_check("C28", "h_codec.cpp", [("san", 0, 8000, 100000), ("rel", 500000, 60000, 1500000)], rule)
    return finish(res, "exploration", rule, ASSUME)


def c29():
    rule = ("Each case is a history on vertex formats, or a mesh taken through construction, transforms, streams (accepted and refused) and conversion "
            "(too early, out of range, repeated). Every call is repeated with each of its allocations failing in turn (up to 40, else 36 of them; once or from then "
            "on) and with the error function throwing at each of its messages, and then without: the objects are compared with ones nothing happened to. Distinct by mesh.")
    res, _, _ = harness_check("C29", "h_oom.cpp", [("san", 0, 40000, 600000), ("rel", 1000000, 200000, 6000000)], rule)
    return finish(res, "exploration", rule, ASSUME + ["memory is allocated with operator new"])


def locales():
    """Compiles some single byte locales; where that isn't possible C.UTF-8 has to do."""
    import tempfile
    base = os.path.join(core.BUILD, "locales")
    wanted = [("tr_TR", "ISO-8859-9"), ("de_DE", "ISO-8859-1"), ("lt_LT", "ISO-8859-13"), ("el_GR", "ISO-8859-7"), ("ru_RU", "KOI8-R"), ("fr_FR", "UTF-8")]
    if not os.path.isdir(base):
        os.makedirs(core.BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=core.BUILD, prefix="locales-")
        for name, charset in wanted:
            try:
                subprocess.run(["localedef", "--no-archive", "-c", "-i", name, "-f", charset, "%s/%s.%s" % (tmp, name, charset)],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            except (OSError, subprocess.TimeoutExpired):
                break
        try:
            os.rename(tmp, base)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return base


def c30():
    rule = ("Each case is a child process that looks up every name (in other cases, with letters some locale takes for others), decodes and encodes values of every "
            "format, and converts generated meshes: in static constructors before the library's (half of the cases) and destructors after them, in main(), in a thread and in every locale that could be "
            "compiled (of the process, the thread or C++; before or after first use in the C locale). Oracle: what the parent sees in main() in the C locale, and an unchanged "
            "rounding mode and locale. Distinct by seed.")
    res = Result("C30")
    sh = Shards(res)
    try:
        exes = build([("h_env", v, ["lib", "h_env.cpp"]) for v in ("san", "rel")])
        env = clean_env(LOCPATH=locales())
        for variant, begin, count in (("san", 0, n(1200, 12000)), ("rel", 100000, n(6000, 120000))):
            if not res.violations:
                sh.run("h_env/" + variant, exes[("h_env", variant)], variant, begin, begin + count, env=env, deadline=budget(120, 600))
    finally:
        sh.close()
    return finish(res, "exploration", rule, ASSUME + ["locales compiled from the system's definitions, where it has them"])


def tool(name):
    import toolchecks
    return getattr(toolchecks, name)()


CHECKS = {
    "C01": lambda: mesh_check("C01", hugeCases=(0, 1), need=19, limit=False, timeout=590), "C02": lambda: mesh_check("C02"), "C03": lambda: mesh_check("C03", hugeCases=(1, 3)),
    "C04": lambda: mesh_check("C04", hugeCases=(0, 2), need=16),
    "C05": lambda: mesh_check("C05", (60000, 600000), (1000000, 9000000), hugeCases=(1, 3)), "C06": lambda: mesh_check("C06"), "C07": lambda: mesh_check("C07"),
    "C08": lambda: codec_check("C08", (6000, 60000), (60000, 600000)), "C09": lambda: codec_check("C09", (6000, 60000), (60000, 600000)),
    "C10": lambda: codec_check("C10", (6000, 60000), (30000, 300000)), "C11": lambda: codec_check("C11", (10000, 100000), (60000, 600000)),
    "C12": lambda: api_check("C12", (12000, 150000), (120000, 1000000)), "C13": lambda: api_check("C13", (10000, 100000), (40000, 400000)),
    "C14": lambda: api_check("C14", (30000, 300000), (400000, 3000000)),
    "C15": lambda: mesh_check("C15", (80000, 900000), (1000000, 12000000)),
    "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21,
    "C22": lambda: tool("c22"), "C23": lambda: tool("c23"), "C24": lambda: tool("c24"), "C25": c25,
    "C26": lambda: tool("c26"), "C27": c27, "C28": c28, "C29": c29, "C30": c30,
}


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        print(json.dumps({k: v for k, v in r.items() if k != "command"}, indent=1)[:6000])
        if r.get("command"):
            return subprocess.run(r["command"][:-2] if r["command"][-2] == "--out" else r["command"], env=clean_env()).returncode
        return 0
    if sys.argv[1:] == ["--build"]:
        # What every check needs: the compilers, the sanitizers and the sources. Checks build what they need themselves.
        build([("h_codec", "rel", ["lib", "h_codec.cpp"]), ("h_codec", "san", ["lib", "h_codec.cpp"])])
        return 0
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print(__doc__)
        return 64
    try:
        return CHECKS[sys.argv[1]]()
    except CheckError as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
