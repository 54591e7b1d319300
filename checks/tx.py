"""C09, C10: the prover's transaction and the on-chain verifier (spec/BFTx.tla)."""
import concurrent.futures, hashlib, json, os, subprocess
from vlib import Check, Raw, ToolError
from checks.bf import machine, srcs

VERIFIER = "target/riscv64imac-unknown-none-elf/release/ckb_bf_verifier"
ROOM = [1024, 4096, 8192, 2048, 1024]


def prove(c, d, src, inp):
    """Runs the real prover binary in its own scratch directory; True if it produced a transaction."""
    os.makedirs(os.path.join(d, "res"), exist_ok=True)
    os.makedirs(os.path.dirname(os.path.join(d, VERIFIER)), exist_ok=True)
    with open(os.path.join(d, VERIFIER), "wb") as f:
        f.write(b"stand-in verifier binary " + src[:8])
    with open(os.path.join(d, "prog.bf"), "wb") as f:
        f.write(src)
    args = [os.path.join(c.bin, "proverbin"), "prog.bf"] + ([inp] if inp else [])
    try:
        r = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400,
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (8 << 30, 8 << 30)))
        rc, out = r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    made = os.path.exists(os.path.join(d, "res", "tx.json"))
    return rc, made, out


def blake2b(b):
    return hashlib.blake2b(b, digest_size=32, person=b"ckb-default-hash").digest()


def prove_all(c, jobs, par=8):
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        return list(ex.map(lambda j: prove(c, *j), jobs))


def txinfo(c, d):
    r = subprocess.run([os.path.join(c.bin, "bfverif"), "txinfo", d], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if r.returncode != 0:
        raise ToolError("txinfo: " + r.stderr[-2000:])
    return json.loads(r.stdout)


def load_cases(path):
    out = []
    for l in open(path):
        if l.startswith('"{'):
            out.append(json.loads(json.loads(l)))
    return out


# program, inputs tried by the machine specification (bytes below 128, no NUL: they travel on a command line)
PROGS = [("+", ()), (".", ()), ("+.", ()), ("-.", ()), (",.", (65, 66)), (",[.-]", (3,)), ("++[>++<-]>.", ()), (",>,<.>.", (7, 127)),
         ("+[-]", ()), ("[.]", ()), ("comment + [ - ] .", ()), (">,[>,]<.", ()), (",", (10,)), ("-[-]", ()), ("<", ()), (",,", (5,))]
MORE = [("+" * 251, ()), ("+" * 252 + ".", ()), ("+" * 254 + "[-]", ()), ("+" * 170 + ">" * 85, ()), (",[.,]", (1, 2)), (">>+[[-]<]", ()),
        ("++++[>++++[>++++<-]<-]>>.", ()), ("-.-.-.", ()), (",+.,-.", (126, 1)), ("[[[]]]+", ()), ("+[>+[-]<-]", ()), ("." * 12, ())]
# run lengths around the sizes at which the table no longer fits the next power of two
EDGE = [("+" * 252, ()), ("+" * 253, ())]


def c09():
    c = Check("C09", "model_checking")
    c.build("harness", "proverbin")
    progs = PROGS + EDGE + (MORE if c.thorough else [])
    ins = sorted({v for _, i in progs for v in i})
    cases = []
    for n, (s, vals) in enumerate(progs):
        pass
    # one TLC run per set of input values would be wasteful: group programs by their input values
    groups = {}
    for s, vals in progs:
        groups.setdefault(vals, []).append(s)
    for k, (vals, ss) in enumerate(sorted(groups.items())):
        out, _ = machine(c, "runs%d" % k, R=256, sources=srcs(*ss), inputs=vals or (1,), maxclk=1600, maxin=3 if vals else 0,
                         props=(), inv=["CellsInRange", "PointerInTape", "Export"])
        cases += load_cases(out)
    # the input is a prefix read by the program: keep, per program, the completed runs and one fault
    seen, jobs, exp = {}, [], []
    for x in sorted(cases, key=lambda x: (len(x["src"]), json.dumps(x["src"]), x["kind"], json.dumps(x["input"]))):
        key = (tuple(x["src"]), x["kind"])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > (2 if x["kind"] == "halt" else 1) * (3 if c.thorough else 1):
            continue
        d = os.path.join(c.work, "tx", str(len(jobs) + 1))
        jobs.append((d, bytes(x["src"]), bytes(x["input"])))
        exp.append(x)
    # longest first keeps the pool busy
    order = sorted(range(len(jobs)), key=lambda i: -len(jobs[i][1]))
    res = dict(zip(order, prove_all(c, [jobs[i] for i in order])))
    good = 0
    ok_dir = os.path.join(c.work, "ok")
    os.makedirs(ok_dir)
    okx = []
    for i, x in enumerate(exp):
        rc, made, out = res[i]
        c.count(1)
        desc = dict(src=bytes(x["src"]).decode("latin1"), input=x["input"], kind=x["kind"])
        if x["kind"] == "fault":
            if made or rc == 0:
                c.violation("the prover produced a transaction for a faulting run", desc, "prove")
            continue
        if rc != 0 or not made:
            c.violation("the prover failed on an honest run (rc %s): %s" % (rc, out[-300:]), desc, "prove")
            continue
        tx = json.load(open(os.path.join(jobs[i][0], "res", "tx.json")))
        w = [bytes.fromhex(h[2:]) for h in tx["tx"]["witnesses"]]
        want = b"".join(v.to_bytes(2, "little") for v in x["code"])
        if w[3] != want:
            c.violation("the program witness is not the compiled program", desc, "prove")
        if w[4] != bytes(x["input"]):
            c.violation("the input witness is not the input", desc, "prove")
        binary = open(os.path.join(jobs[i][0], VERIFIER), "rb").read()
        if bytes.fromhex(tx["mock_info"]["inputs"][0]["output"]["lock"]["code_hash"][2:]) != blake2b(binary) or \
           bytes.fromhex(tx["mock_info"]["cell_deps"][0]["data"][2:]) != binary:
            c.violation("the transaction does not carry the verifier binary and its hash", desc, "prove")
        okx.append(desc)
        os.symlink(jobs[i][0], os.path.join(ok_dir, str(len(okx))))
        good += 1
    if good < 8 and not c.bad:
        raise ToolError("only %d honest runs" % good)
    for x, info in zip(okx, txinfo(c, ok_dir)):
        c.count(1)
        if info["verdict"] != "Ok(0)":
            c.violation("the on-chain verifier rejects an honest transaction: %s" % info["verdict"], x, "verify")
    c.samples = [json.dumps(x) for x in okx[:6]]
    c.runs.append(dict(name="prove and verify", honest=good, faulting=sum(x["kind"] == "fault" for x in exp)))
    c.assumptions = ["the CKB syscalls are stood in for by a host library with their documented behaviour",
                     "witnesses fit the verifier's buffers"]
    return c.finish()


def c10():
    c = Check("C10", "model_checking")
    c.build("harness", "proverbin")
    runs = [(b"+.", b""), (b"-.", b""), (b",.", b"a"), (b",.", b"b"), (b",>,.", b"ab")]
    jobs = [(os.path.join(c.work, "tx", str(i + 1)), s, i_) for i, (s, i_) in enumerate(runs)]
    for (rc, made, out), (s, _) in zip(prove_all(c, jobs), runs):
        if rc != 0 or not made:
            # completeness is C09's business; without honest transactions there is nothing to tamper with
            print("note: no honest transaction for %s: %s" % (s, out[-200:]))
            return c.finish(dict(samples=["no honest transaction could be made"]))
    info = txinfo(c, os.path.join(c.work, "tx"))
    R = [dict(code=x["code"], input=x["input"], len=x["len"], vk=x["vk"]) for x in info]
    if any(x["verdict"] != "Ok(0)" for x in info):
        print("note: an honest transaction is rejected; see C09")
        return c.finish(dict(samples=["honest transactions are rejected"]))
    t = c.thorough

    def go(name, defs="", **kw):
        k = dict(Runs=R, Budget=1, EditRuns={3, 5}, FlipBits={0, 7}, FlipStride=31, Room=ROOM, EmitCases=True)
        k.update(kw)
        return c.tlc("BFTx", k, invariants=["Binding", "Honest", "Export"], name=name)
    outs = [go("one", FlipBits=set(range(8)) if t else {0, 6, 7}, FlipStride=1 if t else 13, EditRuns={1, 3, 5} if t else {3})]
    outs.append(go("two", Budget=2, FlipBits={0}, FlipStride=100000, EditRuns={4}, defs="") if t else
                go("graft", FlipBits={0}, FlipStride=100000, EditRuns={1, 4, 5}))
    for out, _ in outs:
        c.replay("tx", out, args=[os.path.join(c.work, "tx")])
        c.sample(out, 2)
    c.assumptions = ["the verifying key and parameter witnesses are the authentic ones (the script does not pin them)",
                     "bytes after the end of the proof are not read"]
    return c.finish()


CHECKS = dict(C09=c09, C10=c10)
