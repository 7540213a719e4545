"""plant.py [--no-tests] [--check] ID...: validates seeded changes in private copies of /repo, each bind-mounted
over /repo in a namespace of its own (nothing here touches the real /repo)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/plant"


def ns(copy, cmd, timeout, log):
    with open(log, "a") as f:
        f.write("$ %s\n" % cmd)
        f.flush()
        try:
            return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                                  stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return "timeout"


def built_base():
    d = BASE + "/base"
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    if os.path.exists(d + ".head") and open(d + ".head").read() == head:
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(BASE, exist_ok=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", d])
    rc = ns(d, "bash /opt/vp/build.sh", 1200, BASE + "/base.log")
    assert rc == 0, "base build failed"
    open(d + ".head", "w").write(head)
    return d


def one(sid, tests, check):
    src = os.path.join(ROOT, "seeded", sid)
    meta = json.load(open(src + "/meta.json"))
    d, log = "%s/%s" % (BASE, sid), "%s/%s.log" % (BASE, sid)
    shutil.rmtree(d, ignore_errors=True)
    if os.path.exists(log):
        os.remove(log)
    subprocess.check_call(["cp", "-a", BASE + "/base", d])
    demo = "%s/%s.demo" % (BASE, sid)
    shutil.rmtree(demo, ignore_errors=True)
    os.makedirs(demo)
    for f in os.listdir(src):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(src, f), demo)
    res = {"id": sid, "property": meta["property"]}
    run = "bash %s/demo.sh" % demo
    res["demo_clean"] = ns(d, run, 300, log)
    p = subprocess.run(["git", "-C", d, "apply", src + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        res["apply"] = p.stdout
        return res
    if tests:
        rc = ns(d, "bash /opt/vp/test.sh %s/%s.json" % (BASE, sid), 1500, log)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        try:
            ok = set(json.load(open("%s/%s.json" % (BASE, sid)))["passed"])
        except Exception:
            ok = set()
        res["tests_missing"] = [t for t in stable if t not in ok][:5]
    else:
        res["build"] = ns(d, "bash /opt/vp/build.sh", 1200, log)
    res["demo_bug"] = ns(d, run, 300, log)
    if check:
        res["check"] = ns(d, "cd %s && python3 check.py %s" % (ROOT, meta["property"]), 900, "%s/%s.check" % (BASE, sid))
        t = open("%s/%s.check" % (BASE, sid)).read()
        res["caught"] = "VIOLATION property=%s " % meta["property"] in t
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(demo, ignore_errors=True)
    return res


if __name__ == "__main__":
    a = sys.argv[1:]
    tests, check = "--no-tests" not in a, "--check" in a
    ids = [x for x in a if not x.startswith("--")]
    built_base()
    with ThreadPoolExecutor(1 if check else 2) as ex:
        for r in ex.map(lambda i: one(i, tests, check), ids):
            good = r.get("demo_clean") == 0 and r.get("demo_bug") not in (0, None) and not r.get("tests_missing") and not r.get("build")
            print("GOOD" if good else "BAD ", json.dumps(r), flush=True)
