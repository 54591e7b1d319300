"""Shared driver code of the checks: building the harness from /repo's working tree, running TLC on
the specification, replaying its cases into the real code, writing evidence."""
import glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")


class ToolError(Exception):
    pass


class Stop(Exception):
    """A violation has been found: nothing more to look for."""


def tla(x):
    """Python value -> TLA+ expression."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, bytes):
        return "<<" + ", ".join(str(b) for b in x) + ">>"
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in x) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(v) for v in x)) + "}"
    if isinstance(x, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(v)) for k, v in x.items()) + "]"
    if isinstance(x, Raw):
        return x.s
    raise TypeError(x)


class Raw:
    def __init__(self, s):
        self.s = s


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(BUILD, "replay", pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays)
        self.states = self.transitions = self.traces = 0
        self.runs, self.samples, self.bad = [], [], []
        self.assumptions = []
        self.n = 0
        Check.current = self

    current = None

    def real(self):
        """Disagreements that are not listed as known findings."""
        known = load_known().get(self.pid, [])
        return [b for b in self.bad if not any(k["match"] in json.dumps(b) for k in known)]

    def stop_if_decided(self):
        if self.real():
            raise Stop()

    # ---- building -----------------------------------------------------------------------------
    def build(self, *crates):
        for c in crates or ("harness",):
            r = subprocess.run(["bash", "-c", ". %s/env.sh && cd %s/%s && cargo build --offline" % (VERIF, VERIF, c)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stderr.write(r.stdout[-6000:])
                raise ToolError("cannot build %s" % c)

    @property
    def bin(self):
        return os.path.join(os.environ.get("VERIF_TARGET_DIR", os.path.join(BUILD, "target")), "debug")

    # ---- TLC ----------------------------------------------------------------------------------
    def tlc(self, module, consts, invariants=(), properties=(), name=None, simulate=None, depth=100,
            constraint=None, spec="Spec", postcondition=None, timeout=800, expect_violation=False,
            workers=None, files=None, defs=""):
        """Model-checks `module` with the given constants. Returns (output path, stats)."""
        self.stop_if_decided()
        self.n += 1
        name = name or "%s_%d" % (module, self.n)
        d = os.path.join(self.work, "%s.%d" % (name, self.n))
        os.makedirs(d)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), "w") as f:
                f.write(v)
        with open(os.path.join(d, "MC.tla"), "w") as f:
            f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n" % (module, defs))
            for k, v in consts.items():
                f.write("k_%s == %s\n" % (k, tla(v)))
            f.write("====\n")
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write("SPECIFICATION %s\n" % spec)
            if consts:
                f.write("CONSTANTS\n" + "".join(" %s <- k_%s\n" % (k, k) for k in consts))
            if invariants:
                f.write("INVARIANTS %s\n" % " ".join(invariants))
            if properties:
                f.write("PROPERTIES %s\n" % " ".join(properties))
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            if postcondition:
                f.write("POSTCONDITION %s\n" % postcondition)
            f.write("CHECK_DEADLOCK FALSE\n")
        cmd = ["tlc", "-config", "MC.cfg", "-workers", str(workers or os.cpu_count() or 4), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed)]
            cmd[cmd.index("-workers") + 1] = "1"
        cmd.append("MC.tla")
        out = os.path.join(d, "out.txt")
        t = time.time()
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout,
                                   env=dict(os.environ, JAVA_TOOL_OPTIONS="-Xss32m"))
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on %s" % name)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        txt = subprocess.run(["bash", "-c", "grep -v '^\"[{\\[]' '%s' | tail -c 20000" % out], stdout=subprocess.PIPE, text=True).stdout
        violated = "is violated" in txt or "was violated" in txt or "evaluated to FALSE" in txt or "postcondition" in txt.lower() and "violated" in txt.lower()
        ok = r.returncode == 0
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", txt)
        m2 = re.search(r"number of states generated: ([\d,]+)", txt)
        num = lambda s: int(s.replace(",", ""))
        gen, dist = (num(m.group(1)), num(m.group(2))) if m else (num(m2.group(1)), num(m2.group(1))) if m2 else (0, 0)
        st = dict(name=name, generated=gen, distinct=dist, wall_s=round(time.time() - t, 1), violated=violated,
                  mode="simulate" if simulate else "exhaustive")
        if expect_violation:
            if not violated:
                raise ToolError("the specification check %s was expected to fail and did not:\n%s" % (name, txt[-3000:]))
        elif not ok:
            if violated and expect_violation is None:
                pass
            else:
                i = txt.find("Error:")
                raise ToolError("TLC failed on %s:\n%s" % (name, txt[i if i >= 0 else -3000:][:3000]))
        self.states += dist
        self.transitions += gen
        self.runs.append({k: v for k, v in st.items() if k != "violated"})
        st["text"] = txt
        return out, st

    # ---- replay -------------------------------------------------------------------------------
    def replay(self, cmd, cases, timeout=850, exe="bfverif", args=(), need=1):
        """Replays a case file into the real code; collects disagreements."""
        self.stop_if_decided()
        out = cases + "." + cmd + ".result.json"
        if os.environ.get("VERIF_SAVE"):    # keep the cases (tools/replay.py)
            shutil.copy(cases, os.path.join(os.environ["VERIF_SAVE"], "%s.%s.%d.%s.json" % (self.pid, cmd, len(self.runs), exe)))
        try:
            r = subprocess.run([os.path.join(self.bin, exe), cmd, cases, out, *map(str, args)], timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise ToolError("replay %s timed out" % cmd)
        if r.returncode != 0 or not os.path.exists(out):
            if r.returncode < 0 or "memory allocation" in r.stdout or "stack overflow" in r.stdout or r.returncode in (101, 134):
                # the process died inside the code under test
                self.bad.append(dict(why="the process died: rc %d %s" % (r.returncode, r.stdout[-400:]), case=None, cmd=cmd))
                return {}
            raise ToolError("replay %s failed: rc %d\n%s" % (cmd, r.returncode, r.stdout[-4000:]))
        j = json.load(open(out))
        if j["cases"] < need:
            raise ToolError("replay %s: only %d cases, expected at least %d" % (cmd, j["cases"], need))
        done = sum(v for k, v in j["counts"].items() if not k.startswith("skip:")) + j["nbad"]
        self.traces += done
        self.runs.append(dict(name="replay " + cmd, cases=j["cases"], counts=j["counts"], disagreements=j["nbad"]))
        for b in j["bad"]:
            b["cmd"] = cmd
            self.bad.append(b)
        return j

    def sample(self, path, n=2):
        try:
            k = 0
            for l in open(path):
                if l.startswith('"{') or l.startswith('"['):
                    l = json.loads(l)
                if l.startswith("{"):
                    k += 1
                    if k % 97 == 5:
                        self.samples.append(l.strip()[:1500])
                        n -= 1
                        if n == 0:
                            return
        except FileNotFoundError:
            pass

    def violation(self, why, case=None, cmd=None):
        self.bad.append(dict(why=why, case=case, cmd=cmd))

    def count(self, n):
        self.traces += n

    # ---- result -------------------------------------------------------------------------------
    def finish(self, extra=None):
        known = load_known().get(self.pid, [])
        real = []
        for b in self.bad:
            hit = [k for k in known if k["match"] in json.dumps(b)]
            if hit:
                for k in hit:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
            else:
                real.append(b)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   runs=self.runs, samples=self.samples[:8] or [json.dumps(r) for r in self.runs[:3]])
        if self.level != "model_checking":
            cov.update(evaluations=self.traces, distinct_nontrivial=self.traces,
                       rule="one case per terminal state of the specification's state graph; all are distinct states")
        cov.update(extra or {})
        ev = dict(property=self.pid, tier="thorough" if self.thorough else "quick", seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(real))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not real:
            shutil.rmtree(self.work, ignore_errors=True)
            print("OK property=%s states=%d replayed=%d wall=%.0fs" % (self.pid, self.states, self.traces, time.time() - self.t0))
            return 0
        p = os.path.join(self.replays, "violation.json")
        with open(p, "w") as f:
            json.dump(real[:20], f, indent=1)
        for b in real[:5]:
            sys.stderr.write("%s: %s\n  %s\n" % (self.pid, b["why"][:600], json.dumps(b.get("case"))[:800]))
        shutil.rmtree(self.work, ignore_errors=True)
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        return 1


def load_known():
    """Lines 'finding: property=<id> match=<substring> :: <text>' of KNOWN_FINDINGS.txt."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m:
                out.setdefault(m.group(1), []).append(dict(match=m.group(2), text=m.group(3)))
    return out


def main(checks):
    if len(sys.argv) != 2 or sys.argv[1] not in checks:
        print("usage: check <%s>" % "|".join(sorted(checks)))
        sys.exit(2)
    try:
        sys.exit(checks[sys.argv[1]]())
    except Stop:
        sys.exit(Check.current.finish())
    except ToolError as e:
        if Check.current is not None and Check.current.real():
            sys.exit(Check.current.finish())
        sys.stderr.write("tool error: %s\n" % e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
