#!/usr/bin/env python3
"""Tries small changes of the repository against the checks, in private copies (as seedtest.sh does).
   mutants.py <file of mutants> <slots> [names...]   ->  /tmp/seed/mut_<name>.log and a summary line each."""
import os, shutil, subprocess, sys, threading, queue, time
SCRIPT = r'''
mount --bind %(slot)s/repo /repo; mount --bind %(slot)s/verif /verif; mount --bind %(slot)s/vp /opt/vp
cd /repo
if [ "%(tests)s" = 1 ]; then
  bash /opt/vp/build.sh >/tmp/seed/%(name)s.build 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/seed/%(name)s.build; exit 9; }
  bash /opt/vp/test.sh /tmp/seed/%(name)s.out.json >/dev/null 2>&1
  python3 - <<P
import json
o=json.load(open("/tmp/seed/%(name)s.out.json")); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
p=set(o.get("passed",o.get("pass",[])))
m=[x for x in b if x not in p]
print("tests: %%d of %%d stable pass" %% (len(b)-len(m), len(b)), m[:5])
P
fi
cd /verif
for p in %(props)s; do
VERIF_SEED=1 VERIF_TIER=quick ./check $p; echo "check $p rc $?"
done
'''
def prepare(d, edits):
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(d + "/vp"):
        subprocess.run(["cp", "-a", "/opt/vp", d + "/vp"], check=True)
        os.makedirs(d + "/verif", exist_ok=True)
        subprocess.run(["cp", "-a", "/verif/.", d + "/verif/"], check=True)
    shutil.rmtree(d + "/repo", ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run("cd /verif && tar cf - --exclude=./.build --exclude=./.git --exclude=./evidence . | tar xf - -C %s/verif; mkdir -p %s/verif/evidence" % (d, d), shell=True, check=True)
    for e in edits:
        f, old, new = e[:3]
        n = e[3] if len(e) > 3 else None
        p = d + "/repo/" + f
        s = open(p).read()
        c = s.count(old)
        if c == 0 or (n is None and c != 1):
            return "EDIT DOES NOT APPLY (%d matches in %s)" % (c, f)
        i = -1
        for _ in range((n or 0) + 1):
            i = s.index(old, i + 1)
        open(p, "w").write(s[:i] + new + s[i + len(old):])
def run(slot, m, tests):
    name, props, edits = m
    d = "/tmp/seed/" + slot
    r = prepare(d, edits)
    if r:
        return r
    t = time.time()
    log = "/tmp/seed/mut_%s.log" % name
    with open(log, "w") as fh:
        subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT % dict(slot=d, name=name, props=" ".join(props.split("+")), tests=1 if tests else 0)], stdout=fh, stderr=subprocess.STDOUT)
    s = open(log).read().splitlines()
    r = [x for x in s if x.startswith(("VIOLATION", "OK property", "check ", "tests:", "BUILD"))]
    v = [x for x in s if x[:3] in props and x[3:4] == ":"]
    err = [x for x in s if x.startswith("error")][:2]
    return "%4.0fs %s %s %s" % (time.time() - t, " | ".join(r), err, (v or [""])[0][:150])
if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    tests = "tests" in sys.argv[3:]
    only = [x for x in sys.argv[3:] if x != "tests"]
    q = queue.Queue()
    for m in ns["M"]:
        if not only or m[0] in only:
            q.put(m)
    def work(i):
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            try:
                r = run("m%d" % i, m, tests)
            except Exception as e:
                r = "RUNNER " + repr(e)
            caught = "rc 1" in r
            print(("caught  " if caught else "SURVIVES") + " %-28s %-8s %s" % (m[0], m[1], r), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(sys.argv[2]))]
    [t.start() for t in ts]
    [t.join() for t in ts]
