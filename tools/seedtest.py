"""seedtest.py [--jobs N] [--checks-only] ids..: in scratch copies bound over /repo in a private mount
namespace: demo on the unchanged tree, build, stable tests, demo with the patch, and the property's check."""
import json, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
import queue
SEEDED = "/verif/seeded"
OUT = "/tmp/bugs/status"
os.makedirs(OUT, exist_ok=True)
args = sys.argv[1:]
jobs = 3
if "--jobs" in args:
    i = args.index("--jobs"); jobs = int(args[i + 1]); del args[i:i + 2]
checks_only = "--checks-only" in args
allprops = "--all-props" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
slots = queue.Queue()


def ns(copy, cmd, log, timeout=900):
    sh = "mount --bind %s /repo && %s" % (copy, cmd)
    with open(log, "w") as f:
        try:
            return subprocess.run(["unshare", "-Urm", "bash", "-c", sh], stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return 124


def one(id):
    d = os.path.join(SEEDED, id)
    slot = slots.get()
    copy = "/tmp/rc%d" % slot
    st = {}
    p = os.path.join(OUT, id + ".json")
    if os.path.exists(p):
        st = json.load(open(p))
    try:
        log = os.path.join(OUT, id)
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
        if subprocess.run(["git", "-C", copy, "rev-parse", "HEAD"], capture_output=True, text=True).stdout != subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout:
            subprocess.run("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (copy, copy), shell=True, check=True)
        demo = "cd /repo && bash %s/demo.sh" % d
        if not checks_only:
            if os.path.exists(d + "/demo.py"):
                ns(copy, "cd /repo && . /opt/vp/env.sh && cargo build -q -p pyfnntw --lib --offline", log + ".clean.build.log")
            st["demo_clean"] = ns(copy, demo, log + ".clean.log", 300)
        r = subprocess.run(["git", "-C", copy, "apply", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            st["error"] = "patch: " + r.stderr[:300]
            return id, st
        st.pop("error", None)
        if not checks_only:
            st["build"] = ns(copy, "bash /opt/vp/build.sh", log + ".build.log")
            if st["build"] == 0:
                ns(copy, "bash /opt/vp/test.sh %s.res.json" % log, log + ".test.log")
                res = json.load(open(log + ".res.json"))
                passed = set(res.get("passed", []) if isinstance(res.get("passed"), list) else [])
                st["tests_failed"] = [t for t in stable if t not in passed]
                st["demo_bug"] = ns(copy, demo, log + ".bug.log", 300)
        prop = json.load(open(d + "/meta.json"))["property"]
        st["checks"] = {}
        props = [prop]
        if allprops:
            import re
            props = sorted(set(re.findall(r'^    "(C\d\d)": dict\(', open("/verif/sa/rules.py").read(), re.M)))
        env = dict(os.environ, FNNTW_REPO=copy, FNNTW_WORK=copy + ".work", FNNTW_EVIDENCE=copy + ".ev")
        for q in props:
            t = time.time()
            r = subprocess.run(["/verif/check", q], env=env, capture_output=True, text=True, timeout=900)
            open(log + ".check.%s.log" % q, "w").write(r.stdout + r.stderr)
            st["checks"][q] = r.returncode
        st["caught"] = st["checks"].get(prop) == 1
    except Exception as e:
        st["error"] = repr(e)
    finally:
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."])
        slots.put(slot)
        json.dump(st, open(p, "w"), indent=1)
    return id, st


for i in range(jobs):
    slots.put(i)
    if not os.path.exists("/tmp/rc%d" % i):
        subprocess.run(["cp", "-a", "/repo", "/tmp/rc%d" % i], check=True)
with ThreadPoolExecutor(jobs) as ex:
    for id, st in ex.map(one, ids):
        good = st.get("demo_clean") == 0 and st.get("build") == 0 and st.get("tests_failed") == [] and st.get("demo_bug") not in (0, None, 3, 4)
        print(id, "VALID" if good else "invalid %s" % {k: v for k, v in st.items() if k not in ("checks", "caught")}, "caught" if st.get("caught") else "MISSED %s" % st.get("checks"), st.get("error", ""))
        sys.stdout.flush()
