#!/usr/bin/env python3
"""Tries small changes of the repository against saved cases only (no TLC): faster than mutants.py.
   VERIF_SAVE=<dir> ./check <id>   saves the cases;   replay.py <file of mutants> <dir> <crate> <slots> [names...]"""
import glob, json, os, subprocess, sys, threading, queue, time
import mutants
SCRIPT = r"""
mount --bind %(slot)s/repo /repo; mount --bind %(slot)s/verif /verif
cd /verif; . ./env.sh; cd %(crate)s
cargo build --offline 2>&1 | grep -E "^error" -A5 | head -8
rm -f %(slot)s/*.res
for p in %(props)s; do for f in %(dir)s/$p.*; do
b=$(basename $f .json); IFS=. read -r id cmd n exe <<< "$b"
timeout 400 /verif/.build/target/debug/$exe $cmd $f %(slot)s/$b.res >/dev/null 2>&1 || echo "DIED $b"
done; done
"""
def run(slot, m, d0, crate):
    name, props, edits = m
    d = "/tmp/seed/" + slot
    r = mutants.prepare(d, edits)
    if r:
        return False, r
    t = time.time()
    o = subprocess.run(["unshare", "-Urm", "bash", "-c", SCRIPT % dict(slot=d, crate=crate, dir=d0, props=" ".join(props.split("+")))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    bad, why, n = 0, "", 0
    for f in sorted(glob.glob(d + "/*.res")):
        j = json.load(open(f))
        n += j["cases"]
        bad += j["nbad"]
        if j["bad"] and not why:
            why = os.path.basename(f) + " " + str(j["bad"][0].get("why"))
    return bad > 0 or "DIED" in o, "%4.0fs %d/%d %s %s" % (time.time() - t, bad, n, o[:300].replace("\n", " "), why[:160])
if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    q = queue.Queue()
    for m in ns["M"]:
        if not sys.argv[5:] or m[0] in sys.argv[5:]:
            q.put(m)
    def work(i):
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            try:
                c, r = run("m%d" % i, m, sys.argv[2], sys.argv[3])
            except Exception as e:
                c, r = False, "RUNNER " + repr(e)
            print(("caught  " if c else "SURVIVES") + " %-28s %-8s %s" % (m[0], m[1], r), flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(sys.argv[4]))]
    [t.start() for t in ts]
    [t.join() for t in ts]
