"""Mechanical mutants of /repo's sources: keeps the ones that compile and pass the existing tests, then runs a short
battery of the checks on each. Scratch only (/tmp/mut); results in /tmp/mut/results.jsonl.
usage: mutate.py generate | filter | battery [N]"""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, threading

V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
R = "/repo"
M = "/tmp/mut"
FILES = ["lib/src/Converter.cpp", "lib/src/HalfFloat.cpp", "lib/src/VertexValue.cpp", "lib/src/VertexFormat.cpp", "tool/Path.cpp",
         "tool/Base64.cpp", "tool/ConfigFile.cpp", "tool/main.cpp", "tool/ResultFile.cpp"]
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r"(?<=[\w\)])\*(?=[\w\(])", ["/", "+"]),
       (r"(?<=[\w\)])/(?=[\w\(])", ["*"]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^= ", [" |= "]),
       (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r"\+\+", ["--"]), (r"--", ["++"]), (r" \|= ", [" = ", " &= "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";", "continue;"]), (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]),
       (r"\bminVal\b", ["maxVal"]), (r"\bmaxVal\b", ["minVal"]), (r"\[(i|j|k|l|m)\]", ["[0]"]), (r"std::size_t", ["std::uint32_t", "std::uint16_t"]),
       (r"\bdouble\b", ["float"]), (r"\bstd::uint32_t\b", ["std::int32_t", "std::uint16_t"]), (r"\bstd::uint64_t\b", ["std::uint32_t", "std::int64_t"]),
       (r"\bstd::int64_t\b", ["std::int32_t"]), (r"\bstd::uint16_t\b", ["std::uint8_t", "std::int16_t"]), (r"\bunsigned int\b", ["int", "std::uint8_t"]), (r"!(?=[\w\(])", [""]),
       (r"\.empty\(\)", [".size() > 1"]), (r"\bPrimitiveType::TriangleStrip\b", ["PrimitiveType::TriangleFan"]), (r"\bstatic_cast<std::size_t>", ["static_cast<std::uint32_t>"]),
       (r"\b(0x[0-9A-Fa-f]+|\d+)(?=[UuLl]*\b)(?!\.)", ["+1", "-1"]), (r"\b\d+\.\d+\b", ["half"]), (r"->second", ["->first"]), (r"\bstrcasecmp\b", ["strcmp"]), (r"\bstrncasecmp\b", ["strncmp"])]


def own():
    lines = {}
    for f in FILES:
        b = subprocess.run(["git", "-C", R, "blame", "-s", f], stdout=subprocess.PIPE).stdout.decode().splitlines()
        lines[f] = [l.startswith("^") for l in b]
    return lines


def generate():
    out = []
    for f in FILES:
        src = open(R + "/" + f).read().split("\n")
        seen = set()
        comment = False
        for n, line in enumerate(src):
            s = line.strip()
            if "/*" in s:
                comment = True
            if "*/" in s:
                comment = False
                continue
            if comment or not s or s.startswith(("//", "#", "assert", "static_assert", "using", "namespace", "*")):
                continue
            code = line.split("//")[0] if "://" not in line else line

            def add(new, what):
                if new != line and (n, new) not in seen:
                    seen.add((n, new))
                    out.append(dict(file=f, line=n, new=new, what=what))
            strings = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    if any(a <= m.start() < b for a, b in strings):
                        continue
                    for rep in reps:
                        t = rep
                        if rep in ("+1", "-1"):
                            v = int(m.group(0), 16 if m.group(0).startswith("0x") else 10)
                            if v == 0 and rep == "-1":
                                continue
                            w = v + int(rep)
                            t = hex(w) if m.group(0).startswith("0x") else str(w)
                        elif rep == "half":
                            t = repr(float(m.group(0)) * 0.5 + 0.0078125)
                        add(line[:m.start()] + t + line[m.end():], m.group(0).strip() + " -> " + t.strip())
            if re.match(r"^\s*(if|while) \(.*\)$", code) :
                for t in ("true", "false"):
                    add(re.sub(r"(if|while) \(.*\)$", r"\1 (%s)" % t, code), "condition " + t)
            elif re.match(r"^\s*else if \(.*\)$", code):
                add(re.sub(r"if \(.*\)$", "if (false)", code), "condition false")
            if s.endswith(";") and not re.match(r"^(return|break|continue|case|default|const|static|auto|bool|std::\S+ \w|unsigned|int |double|float|glm|[A-Z]\w+& )", s):
                add(re.match(r"^\s*", line).group(0) + ";", "statement removed")
            if re.match(r"^case [\w:']+:$", s):
                add("", "case removed")
            if s.startswith("return ") and s.endswith(";") and s not in ("return true;", "return false;"):
                for t in ("0", "{}"):
                    add(re.match(r"^\s*", line).group(0) + "return %s;" % t, "returns " + t)
    random.Random(5).shuffle(out)
    for i, m in enumerate(out):
        m["id"] = i
    os.makedirs(M, exist_ok=True)
    json.dump(out, open(M + "/mutants.json", "w"))
    print(len(out))


SNAP = M + "/snap" if os.path.exists(M + "/snap") else R


def mutate_text(m):
    src = open(SNAP + "/" + m["file"]).read().split("\n")
    src[m["line"]] = m["new"]
    return "\n".join(src)


INC = ["-I%s/lib/include" % R, "-I%s/tool" % R, "-isystem", "/opt/vp/deps/include", "-I" + V + "/build/gen"]


def base():
    """Objects of everything with the project's own flags."""
    b = M + "/base"
    os.makedirs(b, exist_ok=True)
    cc = json.loads(subprocess.run(["ninja", "-C", R + "/_build", "-t", "compdb"], stdout=subprocess.PIPE).stdout)
    cmds = {}
    for c in cc:
        f = c["file"]
        if f.endswith(".cpp") and " -c " in c["command"]:
            f = os.path.abspath(os.path.join(c["directory"], f))
            if f.startswith(R):
                cmds.setdefault(f[len(R) + 1:], []).append(c)
    return cmds


def test_one(m, cmds, links):
    d = "%s/w%d" % (M, threading.get_ident() % 100000007)
    os.makedirs(d, exist_ok=True)
    f = m["file"]
    text = mutate_text(m)
    src = d + "/" + os.path.basename(f)
    open(src, "w").write(text)
    objs = {}
    for k, c in enumerate(cmds[f]):
        cmd = c["command"]
        o = d + "/m%d.o" % k
        obj = re.search(r" -o (\S+)", cmd).group(1)
        cmd = cmd.replace(" -o " + obj, " -o " + o)
        cmd = re.sub(r" -MF \S+", " -MF /dev/null", cmd)
        cmd = cmd.replace(" -c " + c["file"], " -I%s -c %s" % (os.path.dirname(R + "/" + f), src)).replace("-Werror", "")
        r = subprocess.run(cmd, shell=True, cwd=c["directory"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode:
            return "compile"
        objs[os.path.abspath(os.path.join(c["directory"], obj))] = o
    exes = {}
    for name, (dirn, parts) in links.items():
        out = d + "/" + name
        ps = [objs.get(p, p) for p in parts]
        if name == "vfc" or any(p in objs for p in parts):
            r = subprocess.run(["g++", "-o", out] + ps + ["-lpthread"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode:
                return "link"
            exes[name] = out
    for name in ("vfc_lib_test", "vfc_tool_test"):
        if name in exes:
            try:
                r = subprocess.run([exes[name]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30, cwd=d)
            except subprocess.TimeoutExpired:
                return "tests"
            if r.returncode:
                return "tests"
    if "vfc" in exes:
        t = d + "/func"
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(R + "/tool/test/functional", t)
        for sh in sorted(glob.glob(t + "/*.sh")):
            try:
                r = subprocess.run(["bash", sh, exes["vfc"]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30, cwd=t)
            except subprocess.TimeoutExpired:
                return "tests"
            if r.returncode:
                return "tests"
    return "survives"


def filt():
    cmds = base()
    lib = {f: os.path.abspath(os.path.join(cs[0]["directory"], re.search(r" -o (\S+)", cs[0]["command"]).group(1))) for f, cs in cmds.items() if f.startswith("lib/src")}
    allobj = {}
    for f, cs in cmds.items():
        for c in cs:
            allobj.setdefault(f, []).append(os.path.abspath(os.path.join(c["directory"], re.search(r" -o (\S+)", c["command"]).group(1))))
    libs = sorted(lib.values())
    ext = glob.glob(R + "/_build/**/libgtest*.a", recursive=True) + glob.glob(R + "/_build/**/libgmock*.a", recursive=True)
    if not ext:
        ext = ["-lgtest_main", "-lgtest"]
    def group(pred):
        return [o for f, os_ in allobj.items() for o in os_ if pred(f, o)]
    links = {"vfc_lib_test": ("", group(lambda f, o: f.startswith("lib/test") or "vfc_lib_test" in o) + libs + ext),
             "vfc_tool_test": ("", group(lambda f, o: "vfc_tool_test" in o) + libs + ext),
             "vfc": ("", group(lambda f, o: f.startswith("tool/") and "test" not in f and "vfc_tool_test" not in o) + libs)}
    for k, v in links.items():
        links[k] = ("", list(dict.fromkeys(v[1])))
        print(k, len(links[k][1]))
    ms = json.load(open(M + "/mutants.json"))
    # The unchanged sources pass.
    m0 = dict(ms[0]); m0["new"] = open(R + "/" + m0["file"]).read().split("\n")[m0["line"]]
    for f in FILES:
        r = test_one(dict(file=f, line=0, new=open(R + "/" + f).read().split("\n")[0]), cmds, links)
        print(f, r)
        if r != "survives":
            return
    done = {}
    if os.path.exists(M + "/filter.jsonl"):
        for l in open(M + "/filter.jsonl"):
            e = json.loads(l); done[e["id"]] = e
    lock = threading.Lock()
    o = open(M + "/filter.jsonl", "a")
    def work(m):
        if m["id"] in done:
            return
        r = test_one(m, cmds, links)
        with lock:
            o.write(json.dumps(dict(id=m["id"], r=r)) + "\n"); o.flush()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(work, ms))


def battery(limit):
    sys.path.insert(0, V + "/lib")
    res = {json.loads(l)["id"]: json.loads(l)["r"] for l in open(M + "/filter.jsonl")}
    ms = [m for m in json.load(open(M + "/mutants.json")) if res.get(m["id"]) == "survives"]
    done = set()
    if os.path.exists(M + "/results.jsonl"):
        done = {json.loads(l)["id"] for l in open(M + "/results.jsonl")}
    repo = M + "/repo"
    if not os.path.exists(repo):
        subprocess.run(["git", "clone", "-q", R, repo], check=True)
    os.environ["VFC_REPO"] = repo
    import core
    out = open(M + "/results.jsonl", "a")
    k = 0
    for m in ms:
        if m["id"] in done:
            continue
        if k >= limit:
            break
        k += 1
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        open(repo + "/" + m["file"], "w").write(mutate_text(m))
        caught = None
        if m["file"].startswith("lib/"):
            caught = lib_battery(core)
            if not caught and "tool" in m["file"]:
                pass
        else:
            order = {"tool/Path.cpp": ["C24"], "tool/Base64.cpp": ["C19", "C21"], "tool/ConfigFile.cpp": ["C20", "C22", "C24", "C26", "C21", "C27"],
                     "tool/ResultFile.cpp": ["C25", "C22"], "tool/main.cpp": ["C22", "C24", "C26", "C23", "C21", "C27"]}[m["file"]]
            for p in order:
                r = subprocess.run(["python3", "check.py", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                if r.returncode == 1:
                    caught = p
                    break
                if r.returncode != 0:
                    caught = p + "!%d" % r.returncode
        out.write(json.dumps(dict(id=m["id"], caught=caught)) + "\n"); out.flush()
        src = open(SNAP + "/" + m["file"]).read().split("\n")
        print("%5d %s %s:%d %s | %s" % (m["id"], caught or "MISSED", m["file"], m["line"] + 1, m["what"], src[m["line"]].strip()[:90]), flush=True)
        for f in glob.glob(V + "/build/bin/*") + glob.glob(V + "/build/obj/*"):
            try:
                if os.path.getmtime(f) > START and k % 10 == 0:
                    os.unlink(f)
            except OSError:
                pass


import time
START = time.time()


def lib_battery(core):
    try:
        exes = core.build([("h_mesh", "rel", ["lib", "h_mesh.cpp"]), ("h_codec", "rel", ["lib", "h_codec.cpp"]), ("h_api", "rel", ["lib", "h_api.cpp"]),
                           ("h_mesh", "san", ["lib", "h_mesh.cpp"]), ("h_codec", "san", ["lib", "h_codec.cpp"]), ("h_api", "san", ["lib", "h_api.cpp"])])
    except core.CheckError:
        return "build!"
    jobs = []
    for c in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C15"):
        jobs += [("h_mesh", "rel", c, 1000000, 40000), ("h_mesh", "san", c, 0, 3000)]
    for c in ("C08", "C09", "C10", "C11"):
        jobs += [("h_codec", "rel", c, 500000, 20000), ("h_codec", "san", c, 0, 3000)]
    for c in ("C12", "C13", "C14"):
        jobs += [("h_api", "rel", c, 1000000, 30000), ("h_api", "san", c, 0, 4000)]
    caught = []
    res = core.Result("C00")
    known = core.load_known() if hasattr(core, "load_known") else None

    def go(j):
        if caught:
            return
        name, var, c, b, n = j
        sh = core.Shards(res, c)
        sh.work += "-%s-%s" % (c, var)
        os.makedirs(sh.work, exist_ok=True)
        kind, d = sh.once(exes[(name, var)], b, b + n, 300)
        sh.close()
        if kind != "ok":
            caught.append(c + ("" if kind == "violation" else ":" + kind))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(go, jobs))
    return caught[0] if caught else None


if __name__ == "__main__":
    {"generate": generate, "filter": filt}.get(sys.argv[1], lambda: battery(int(sys.argv[2]) if len(sys.argv) > 2 else 10**9))()
