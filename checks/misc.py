"""C17..: transcripts, batches, ... (spec/Transcript, Batch)."""
import json
import os
import random
import subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import Check, Raw, ToolError


def c18():
    c = Check("C18", "model_checking")
    c.build("halo")
    t = c.thorough
    inv = ["Complete", "Sound", "Export"]
    # larger batches on the specification alone; then those that are replayed
    c.tlc("Batch", dict(Q=11, Max=5, Factors=set(range(1, 11)), Bases={0}, Emit=False), invariants=inv, name="long")
    # a factor that can be foreseen breaks it
    for f in (1, 4):
        c.tlc("Batch", dict(Q=11, Max=2, Factors={f}, Bases={0}, Emit=False), invariants=inv, name="foreseen%d" % f, expect_violation=True)
    out, _ = c.tlc("Batch", dict(Q=11, Max=4 if t else 3, Factors=set(range(1, 11)), Bases={0, 1}, Emit=True), invariants=inv, name="batches")
    for s in ("gwc", "shplonk", "ipa"):
        c.replay("batch", out, exe="haloverif", args=[s], need=50)
    c.sample(out, 2)
    c.assumptions = ["a factor is foreseen by rehearsing the batch; errors are put in the last message of a proof"]
    return c.finish()


def c17():
    c = Check("C17", "model_checking")
    c.build("small")
    t = c.thorough
    inv = ["Injective", "Bound", "Export"]
    pts, scs = {"A", "nA", "B", "O"}, {"0", "1", "s"}
    c.tlc("Transcript", dict(Points=pts, Scalars=scs, MaxOps=4, WithFaults=False, IdentityRefused=False, Emit=False), invariants=inv, name="long")
    for refuse, curves in ((False, ("bn256", "secp256k1")), (True, ("vesta", "pallas"))):
        k = "r" if refuse else "a"
        hist, _ = c.tlc("Transcript", dict(Points=pts, Scalars={"0", "s"}, MaxOps=4 if t else 3, WithFaults=False, IdentityRefused=refuse, Emit=True), invariants=inv, name="histories-" + k)
        bad, _ = c.tlc("Transcript", dict(Points={"A", "O"}, Scalars={"s", "-1"}, MaxOps=3, WithFaults=True, IdentityRefused=refuse, Emit=True), invariants=inv, name="tampered-" + k)
        short, _ = c.tlc("Transcript", dict(Points={"A", "O"}, Scalars={"s"}, MaxOps=3 if t else 2, WithFaults=True, IdentityRefused=refuse, Emit=True), invariants=inv, name="short-" + k)
        for cv in curves:
            for out in (hist, bad):
                c.replay("transcript", out, exe="smallverif", args=["blake,keccak", cv], need=100)
            if cv != "pallas":
                c.replay("transcript", short, exe="smallverif", args=["poseidon", cv], need=20)
        c.sample(bad, 1)
    c.assumptions = ["a challenge is identified with the history it hashes; the hash functions themselves (BLAKE2b, Keccak, Poseidon's permutation) are taken from the same libraries, Poseidon from the repository's own crate (see C15)"]
    return c.finish()


SCALARS = [(0, 0, 0, 0), (1, 0, 0, 0), (2, 0, 0, 0), (3, 0, 0, 0), (-1, 0, 0, 0), (-2, 0, 0, 0), (0, 1, 0, 0), (-1, 1, 0, 0), (0, 0, 1, 0), (0, 0, -1, 1), (255, 0, 0, 0), (0, 0, 0, 3 << 18)]


def c20():
    c = Check("C20", "model_checking")
    c.build("small")
    t = c.thorough
    inv = ["Law", "Export"]
    small = dict(P=31, B=3, G=(1, 2), N=43)
    reps = {"affine", "one", "two", "third"}
    cheap = {"add", "sub", "neg", "double", "affine", "rescale", "swap"}
    curves = ("g1", "g2", "secp", "vesta", "pallas")
    # every pair of small multiples, in every representation
    pairs, _ = c.tlc("Curve", dict(small, Starts=set(range(-3, 4)), Reps=reps, Scalars=set(), Ops={"add", "sub", "double", "neg", "encode"}, Depth=1, Emit=True), invariants=inv, name="pairs")
    # sequences of operations
    seqs, _ = c.tlc("Curve", dict(small, Starts={0, 1, -1} if not t else {0, 1, -1, 2}, Reps={"affine", "two"}, Scalars=set(), Ops=cheap, Depth=4, Emit=True), invariants=inv, name="sequences")
    muls, _ = c.tlc("Curve", dict(small, Starts={0, 1, 2, -5}, Reps={"affine", "third"}, Scalars=set(SCALARS), Ops={"mul", "add"}, Depth=2, Emit=True), invariants=inv, name="scalars")
    inv = ["Linear", "Export"]
    sc = SCALARS if t else SCALARS[:2] + SCALARS[4:5] + SCALARS[7:8] + SCALARS[9:10]
    m1, _ = c.tlc("Msm", dict(Scalars=tuple(sc), Points=(0, 1, -1, 2), MaxLen=3 if t else 2, Longs=set(), Emit=True), invariants=inv, name="sums")
    lens = [3, 4, 5, 7, 8, 31, 32, 33, 64, 65, 130]
    m2, _ = c.tlc("Msm", dict(Scalars=tuple(SCALARS), Points=(0, 1, -1, 2, 7, -7, 3), MaxLen=0, Longs={(n, s) for n in lens for s in (7, 1001, 31337)}, Emit=True), invariants=inv, name="long sums")
    for k, cv in enumerate(curves):
        if cv not in ("vesta", "pallas"):
            c.replay("curve", pairs, exe="smallverif", args=[cv], need=3000)
            c.replay("curve", muls, exe="smallverif", args=[cv], need=500)
        c.replay("msm", m1, exe="smallverif", args=[cv], need=100)
        c.replay("msm", m2, exe="smallverif", args=[cv], need=30)
    for cv in ("g1", "g2", "secp") if t else ("g1",):
        c.replay("curve", seqs, exe="smallverif", args=[cv], need=5000)
    c.sample(seqs, 1)
    c.sample(m1, 1)
    c.assumptions = ["points are multiples of the generator; field arithmetic is decided by C21"]
    return c.finish()


MODULI = {
    "bn-q": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "bn-r": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "secp-p": 2**256 - 2**32 - 977,
    "secp-n": 115792089237316195423570985008687907852837564279074904382605163141518161494337,
}


def digits(x):
    d = []
    while x:
        d.append(x % 4096)
        x //= 4096
    return tuple(d)


def trace_check(c, module, trace, consts, name):
    """TLC over a recorded trace; every record it refuses is a violation."""
    n = sum(1 for _ in open(trace))
    out, _ = c.tlc(module, dict(consts, File=trace, Chunk=max(1, n // 256)), invariants=["Judge"], name=name)
    bad = sorted({json.loads(json.loads(l))["bad"] for l in open(out) if l.startswith('"{')})
    if bad:
        rec = open(trace).read().splitlines()
        for b in bad[:10]:
            c.violation("%s: recorded step %d contradicts the specification: %s" % (name, b, rec[b - 1][:500]), json.loads(rec[b - 1]), name)
    c.count(n)
    c.runs.append(dict(name="trace " + name, records=n, refused=len(bad)))


def record(c, args, name, exe="haloverif"):
    """Runs a recorder of the harness; a panic of the code under test is a violation."""
    r = subprocess.run([os.path.join(c.bin, exe), *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        if r.returncode == 101 or r.returncode < 0:
            c.violation("%s: the code under test panicked: %s" % (name, r.stdout[-600:]))
            return False
        raise ToolError("recorder %s: rc %d %s" % (name, r.returncode, r.stdout[-2000:]))
    return True


def c21():
    c = Check("C21", "model_checking")
    c.build("small")
    t = c.thorough
    kinds = {"0", "1", "max", "p", "p-", "p+", "mix"} | ({"top"} if t else set())
    ops, _ = c.tlc("FieldOperands", dict(Kinds=kinds, Emit=True), invariants=["Export"], name="operands")
    if not t:
        lines = [l for l in open(ops) if l.startswith('"{')]
        random.Random(c.seed).shuffle(lines)
        keep = [l for l in lines if l.count("max") + l.count("p") >= 4]
        open(ops, "w").writelines(keep[:150] + lines[:150])
    for f, p in MODULI.items():
        tr = os.path.join(c.work, "trace-%s.ndjson" % f)
        if record(c, ["fieldtrace", ops, tr, f, 6 if t else 1, c.seed], f, "smallverif"):
            trace_check(c, "FieldTrace", tr, dict(P=digits(p), Two256=digits(2**256)), f)
            c.sample(tr, 1)
    c.assumptions = ["the portable implementation (feature asm off); the fields of the pasta curves are an external crate", "powers are compared with repeated multiplication, which is checked"]
    return c.finish()


def c22():
    c = Check("C22", "model_checking")
    c.build("small")
    t = c.thorough
    inv = ["Agrees", "Characterised", "Export"]
    ring = {"mul", "add", "sub", "square", "double", "neg", "conjugate", "nonresidue", "xi", "v", "norm", "mul1", "mul01", "mul014", "mul034"}
    dense = set(range(c.seed, c.seed + (20 if t else 6)))
    r1, _ = c.tlc("Tower", dict(P=7, Levels={2, 6}, Ops=ring, Dense=dense, Mode="pairs", Emit=True), invariants=inv, name="small levels")
    r2, _ = c.tlc("Tower", dict(P=7, Levels={12}, Ops=ring, Dense=dense, Mode="pairs", Emit=True), invariants=inv, name="top level")
    ch, _ = c.tlc("Tower", dict(P=7, Levels={2, 6, 12}, Ops={"invert", "frobenius", "sqrt", "nosqrt", "cyclotomic"}, Dense=dense, Mode="few", Emit=True), invariants=inv, name="inverse and Frobenius")
    for o, n in ((r1, 1000), (r2, 1000), (ch, 200)):
        c.replay("tower", o, exe="smallverif", need=n)
    c.tlc("Tower", dict(P=79, Levels={2, 6, 12}, Ops={"mul", "invert", "frobenius", "nosqrt"}, Dense=dense, Mode="laws", Emit=False), invariants=inv, name="laws")
    inv = ["Bilinear", "Degenerate", "Export"]
    lst = {0, 1, -1, 2, 5}
    p1, _ = c.tlc("Pairing", dict(N=101, Left=lst, Right=lst, MaxTerms=3 if t else 2, Scalars={0}, Ops=set(), Depth=0, Emit=True), invariants=inv, name="pairings")
    p2, _ = c.tlc("Pairing", dict(N=101, Left={0, 1, -2}, Right={1, 3}, MaxTerms=1, Scalars={0, 1, -1, 2, -7}, Ops={"double", "neg", "mul", "add", "sub"}, Depth=3 if t else 2, Emit=True), invariants=inv, name="target group")
    for o in (p1, p2):
        c.replay("pairing", o, exe="smallverif", need=300)
    c.sample(r2, 1)
    c.sample(p1, 1)
    c.assumptions = ["base-field arithmetic is decided by C21, points by C20", "the pairing is fixed up to a non-degenerate power, which bilinearity cannot see"]
    return c.finish()


def c19():
    from checks.plonk import PROTO, SHAPES, cases_of, doc, enumerate_shape, thin
    c = Check("C19", "model_checking")
    c.build("halo")
    t = c.thorough
    inv = ["Total", "Canonical", "Export"]
    els = ["element:" + f for f in ("bn-r", "bn-q", "bn-q2", "secp-p", "secp-n")]
    objs = [(o, f) for o in els + ["point:g1", "point:g2", "point:secp"] for f in ("processed", "raw")]
    objs += [("projective:" + g, "raw") for g in ("g1", "g2", "secp")] + [("params", "processed"), ("params", "raw"), ("ipa", "processed")]
    keys = {}
    for name in ("select", "lookups"):
        sh, menu, b = PROTO[name]
        keys[name] = [os.path.join(c.work, "%s.%s.json" % (name, x)) for x in ("doc", "body")]
        json.dump(dict(shape=sh, menu=menu), open(keys[name][0], "w"))
        json.dump(b, open(keys[name][1], "w"))
    jobs = [(o, f, None) for o, f in objs] + [(o, f, name) for name in keys for o in ("vk", "pk") for f in ("processed", "raw")]
    for o, f, name in jobs:
        extra = list(keys[name]) if name else []
        tag = "%s %s%s" % (o.replace(":", " "), f, " " + name if name else "")
        sl = os.path.join(c.work, "slots-%s.json" % tag.replace(" ", "-"))
        if not record(c, ["slots", o, sl, f] + extra, tag):
            continue
        kinds = json.load(open(sl))
        out, _ = c.tlc("Encoding", dict(Object=o, Format=f, Slots=tuple(kinds), MaxFaults=2 if t or len(kinds) < 3 else 1, Emit=True), invariants=inv, name=tag)
        c.replay("encoding", out, exe="haloverif", args=[o, f] + extra, need=7 if len(kinds) == 1 else 40)
        if o in ("params", "vk"):
            c.sample(out, 1)
    for name in SHAPES if t else [n for n in ("arith", "lookup", "select", "phase", "degree") if n in SHAPES]:
        out, _ = enumerate_shape(c, name)
        p, n = thin(c, name, cases_of(out), 300 if t else 24)
        c.replay("keys", p, exe="haloverif", args=[doc(c, name)], need=n // 2)
    c.assumptions = ["headers (sizes, k) are not tampered with; formats without checks are read back unchanged only"]
    return c.finish()


def c23():
    c = Check("C23", "model_checking")
    c.build("halo")
    t = c.thorough
    inv = ["Linear", "Shift", "Export"]
    k = 7 if t else 6
    for s in ((3, 1234567, 99991) if t else (3, 99991)):
        out, _ = c.tlc("Commit", dict(K=k, S=3, Coeffs={-1, 0, 2}, MaxDeg=3 if t else 2, Rands=set(range(1, 8)), Emit=True), invariants=inv, name="polynomials s=%d" % s)
        c.replay("commit", out, exe="haloverif", args=[k, s], need=100)
    c.sample(out, 2)
    return c.finish()


CHECKS = dict(C17=c17, C18=c18, C19=c19, C20=c20, C21=c21, C22=c22, C23=c23)
