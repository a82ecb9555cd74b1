"""Runs the check of each planted bug's property against it, in the scratch copy /tmp/sc/repo."""
import json, os, subprocess, sys, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SC = "/tmp/sc/repo"
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = os.path.abspath(V + "/seeded/" + i)
    prop = json.load(open(d + "/meta.json"))["property"]
    props = [prop] if "--all" not in sys.argv else ["C%02d" % k for k in range(1, 31)]
    subprocess.run(["git", "-C", SC, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", SC, "apply", d + "/patch.diff"], check=True)
    caught = []
    t = time.time()
    for p in props:
        r = subprocess.run(["python3", "check.py", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, VFC_REPO=SC))
        o = r.stdout.decode(errors="replace")
        if r.returncode == 1 and "VIOLATION property=" + p in o:
            caught.append(p)
        elif r.returncode not in (0, 1):
            caught.append(p + "!%d" % r.returncode)
        if len(props) == 1:
            o = [l for l in o.splitlines() if not l.startswith("KNOWN")]
            print("%-28s %s %-6s %5.1f s  %s" % (i, p, "CAUGHT" if caught == [p] else "MISSED" if not caught else "ERROR", time.time() - t, (o or [""])[0][:150]), flush=True)
    if len(props) > 1:
        print(i, prop, "caught by", caught, flush=True)
subprocess.run(["git", "-C", SC, "checkout", "-q", "--", "."], check=True)
