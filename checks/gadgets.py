"""C24..: the circuit gadgets (spec/Gadget, Poseidon)."""
import itertools, random
from vlib import Check, Raw
from checks.algebra import field, pool, FIELDS


def c24():
    c = Check("C24", "model_checking")
    c.build("small")
    t = c.thorough
    jobs = []

    def run(p, op, k, w):
        jobs.append(lambda: (op, c.tlc("Gadget", dict(Op=op, Bits=FIELDS[p][2], MaxK=k, MaxW=w, Emit=True, **field(p)),
                                       invariants=["Sound", "Complete", "Export"], name="%s_p%d" % (op, p), workers=2)[0]))
    run(13, "swap", 1, 1)
    run(13, "running", 3, 3)
    run(97, "running", 3, 6)
    run(13, "lookup", 3, 3)
    run(97, "lookup", 4, 6)
    run(13, "short", 2, 1)
    run(97, "short", 3, 1)
    run(13, "bits", 4, 1)
    run(97, "bits", 7, 1)
    run(13, "check", 1, 12)
    run(97, "check", 1, 40)
    if t:
        run(97, "swap", 1, 1)
    for op, out in pool(jobs):
        c.replay("gadget", out, exe="smallverif", need=10)
        c.sample(out, 1)
    c.assumptions = ["run on the fields with 13 and 97 elements: the gadgets are generic over the field"]
    return c.finish()


def c25():
    c = Check("C25", "model_checking")
    c.build("small")
    t = c.thorough
    jobs = []

    def run(p, tw, rf, rp, skip=0):
        bits = FIELDS[p][2]
        raw = int(((rf + rp) * tw * (2 ** bits / p) * 1.35 + 2 * tw * (4 + 40 * (skip + 1))) * bits * 2) + 400
        for which in ("const", "chip"):
            jobs.append(lambda which=which: c.tlc("Poseidon", dict(Bits=bits, Tw=tw, RF=rf, RP=rp, Skip=skip, Raw=raw, MaxOps=0, Chunks={0}, Which=which,
                                                                   MaxLen=5 if which == "const" else 3, Emit=True, **field(p)),
                                                  invariants=["Good", "Export"], name="%s_p%d_t%d_%d_%d" % (which, p, tw, rf, rp), workers=2)[0])
    run(13, 2, 2, 2)
    run(13, 2, 4, 4)
    run(13, 3, 2, 8)
    run(13, 3, 4, 6)
    run(97, 2, 4, 4)
    for out in pool(jobs):
        c.replay("chip", out, exe="smallverif", need=5)
        c.sample(out, 1)
    c.assumptions = ["run on the fields with 13 and 97 elements: the chip and the sponge are generic over the field"]
    return c.finish()


def c26():
    c = Check("C26", "model_checking")
    c.build("small")
    t = c.thorough
    rnd = random.Random(c.seed)
    jobs = []

    def tup(xs):
        return set(Raw("<<" + ", ".join(str(v) for v in x) + ">>") for x in xs)

    def run(cmd, p, op, ins, scalars=((),), signs=(1,)):
        pts = [(x, y) for x in range(p) for y in range(p) if (y * y - x ** 3 - 5) % p == 0]
        ks = set(Raw("<<" + ", ".join("<<%d, %d>>" % e for e in k) + ">>") for k in scalars)
        jobs.append((cmd, lambda: c.tlc("Ecc", dict(Mode="tiny" if cmd == "ecc" else "witness", B=5, G=Raw("<<%d, %d>>" % pts[0]), N=len(pts) + 1, Op=op, Ins=tup(ins), Scalars=ks,
                                                    Signs=set(signs), Emit=True, **field(p)),
                                        invariants=["Shape", "Group", "Assoc", "Multiples", "Export"], name="%s_%s_p%d" % (cmd, op, p), workers=2)[0]))
    all7 = list(itertools.product(range(7), repeat=2))
    pts7 = [q for q in all7 if (q[1] ** 2 - q[0] ** 3 - 5) % 7 == 0] + [(0, 0)]
    pts37 = [q for q in itertools.product(range(37), repeat=2) if (q[1] ** 2 - q[0] ** 3 - 5) % 37 == 0]
    off = [(0, 2), (3, 0), (3, 3), (1, 1)]
    for op in ("witness", "nonid", "twice", "ext"):
        run("ecc", 7, op, all7)
        run("ecc", 37, op, itertools.product(range(37), repeat=2) if t else pts37 + [(0, 0), (0, 5), (5, 0), (1, 1), (6, 7)])
    for op in ("add", "addn", "addm", "inc", "eq"):
        run("ecc", 7, op, [a + b for a in (all7 if t else pts7 + off) for b in (all7 if t else pts7 + off)])
        some = [(a, b) for a in pts37 for b in pts37]
        some = some if t else rnd.sample(some, 120) + [(a, a) for a in rnd.sample(pts37, 6)] + [(a, (a[0], 37 - a[1])) for a in rnd.sample(pts37, 6)]
        run("ecc", 37, op, [a + b for a, b in some])
    run("ecc", 7, "chain", [a + b + d for a in pts7 for b in pts7 for d in pts7])
    es = range(-3, 4)
    for op, n in (("witness", 1), ("nonid", 1), ("twice", 1), ("ext", 1), ("add", 2), ("addn", 2), ("addm", 2), ("inc", 2), ("eq", 2), ("chain", 3)):
        run("pallas", 7, op, [x for x in itertools.product(es if n < 3 else (-2, -1, 0, 1, 3), repeat=n)])
    # scalars: every power of two and its neighbours, the ends of the field, dense ones
    near = [()] + [((1, e),) for e in range(0, 255)] + [((1, e), (-1, 0)) for e in range(1, 255)] + [((1, e), (1, 0)) for e in range(1, 255)] + [((1, -1), (-1, e)) for e in range(0, 254)]
    ends = [()] + [((1, e),) for e in (0, 1, 2, 63, 64, 125, 126, 127, 128, 129, 130, 131, 132, 252, 253, 254)] + [((1, -1), (-1, e)) for e in (0, 1, 2, 3, 124, 125, 126, 253)] + [((1, 254), (-1, 0)), ((1, 130), (-1, 0))]
    dense = [tuple((1, e) for e in sorted(rnd.sample(range(254), 120), reverse=True)) for _ in range(12 if t else 3)] + [tuple((1, e) for e in range(253, -1, -2))]
    ks = (near if t else ends) + dense
    run("pallas", 7, "mul", [(1,), (-2,)] if t else [(5,)], ks)
    run("pallas", 7, "mulmul", [(3,)], dense)
    run("pallas", 7, "elem", [()], ks)
    run("pallas", 7, "full", [()], ks)
    sh = [()] + [((1, e),) for e in range(0, 68)] + [((1, a), (s, b)) for a in (1, 2, 3, 31, 62, 63, 64, 65, 66) for b in range(0, a + 1, 1 if t else 7) for s in (1, -1)]
    sh += [tuple((1, e) for e in sorted(rnd.sample(range(63), 30), reverse=True)) for _ in range(3)]
    run("pallas", 7, "short", [()], sh, (1, -1, 0, 2))
    # a prover who tries to get away with another number congruent to the scalar, or with parts of the table for other inputs
    low = [(), ((1, 0),), ((1, 5), (1, 0)), ((1, 126),), ((1, 130), (-1, 0)), ((1, 130), (1, 3)), ((1, 200), (1, 5)), ((1, 253), (1, 126))]
    high = [((1, -1), (-1, 0)), ((1, -1), (-1, 5)), ((1, -1), (-1, 124)), ((1, -1), (-1, 126)), ((1, -1), (-1, 130), (1, 3)), ((1, 254), (1, 3)), ((1, 254), (-1, 1))]
    run("forge", 7, "mul", [(2,)], low + high + dense[:2])
    run("forge", 7, "mulmul", [(3,)], [dense[0], high[0]])
    run("forge", 7, "elem", [()], low + high + dense[:2])
    run("forge", 7, "short", [()], [(), ((1, 63), (1, 5)), ((1, 64),), ((1, 64), (-1, 0)), ((1, 65), (1, 0)), ((1, 66), (-1, 1))] + sh[-1:], (1, -1, 0, 2))
    for (cmd, _), out in zip(jobs, pool([j for _, j in jobs])):
        c.replay(cmd, out, exe="smallverif", need=1)
        c.sample(out, 1)
    c.assumptions = ["provable tuples are enumerated on the curves y^2 = x^3 + 5 over 7 and 37 elements, on which, as on Pallas, no point has a zero coordinate",
                     "incomplete addition of a point to itself is outside its contract"]
    return c.finish()


def c27():
    c = Check("C27", "model_checking")
    c.build("small")
    t = c.thorough
    rnd = random.Random(c.seed)
    jobs = []

    def bits(xs):
        return Raw("{" + ", ".join(str(x) for x in sorted(xs)) + "}")

    def seq(xs):
        return Raw("<<" + ", ".join(x.s if isinstance(x, Raw) else str(x) for x in xs) + ">>")

    def run(cmd, op, name, msgs, rs=((),), poss=(0,), domains=("verif:domain",), forge=False):
        jobs.append((cmd, lambda: c.tlc("Sinsemilla", dict(Op=op, Msgs=set(msgs), Rs=set(bits(r) for r in rs), Poss=set(poss), Domains=set(domains), Forge=forge, Emit=True),
                                        invariants=["Closed", "Injective", "Export"], name="%s_%s" % (cmd, name), workers=2)[0]))
    # outside the circuit: every length around the word boundaries, up to the longest message
    lens = sorted(set([0, 1, 2, 9, 10, 11, 19, 20, 21, 29, 30, 31, 99, 100, 101, 239, 240, 241, 510, 520, 1086, 2520, 2529, 2530] + ([n for n in range(0, 121)] if t else [])))
    run("sinhost", "host", "lens", [seq([rnd.randrange(2) for _ in range(n)]) for n in lens], [(), (0,), (5, 100, 253)], domains=("verif:domain", "z.cash:Orchard-NoteCommit"))
    run("sinhost", "host", "bits", [seq([int(i == j) for i in range(n)]) for n in (10, 13, 21) for j in range(n)] + [seq([v] * n) for v in (0, 1) for n in (1, 10, 20, 25, 40)], [(3,)])
    # every word, outside and inside the circuit
    perm = rnd.sample(range(1024), 1024)
    run("sinhost", "host", "words", [seq([w >> e & 1 for w in perm[i:i + 250] for e in range(10)]) for i in range(0, 1024, 250)], [(3,)])
    run("sinsemilla", "hash", "words", [seq([seq([25, seq(perm[j:j + 25] if j + 25 <= 1024 else perm[-25:])]) for j in range(i, min(i + 75, 1024), 25)]) for i in range(0, 1024, 75)])
    # in the circuit: pieces
    word = lambda: rnd.choice((0, 1, 511, 512, 1023, rnd.randrange(1024), rnd.randrange(1024)))
    piece = lambda n, top=None: seq([n, seq([word() for _ in range(n)] + ([] if top is None else [top]))])
    sizes = [(1,), (2,), (3,), (24,), (25,), (1, 1), (1, 2), (2, 1), (3, 2), (25, 1), (1, 25), (25, 1, 25), (1, 1, 1), (2, 3, 1), (4, 1, 2), (25, 25, 25)]
    if t:
        sizes += [s for n in (1, 2, 3, 4) for s in itertools.product((1, 2, 4), repeat=n)]
    good = [seq([piece(n) for n in s]) for s in sizes]
    long = [seq([piece(n, rnd.choice((1, 512, 1023)) if i == j else None) for i, n in enumerate(s)]) for s in sizes for j in range(len(s)) if s[j] < 25]
    run("sinsemilla", "hash", "pieces", good + long)
    run("sinsemilla", "commit", "pieces", good[:6] + good[9:12] + long[:2], [(), (0,), (1, 130, 252)])
    run("sinsemilla", "short", "pieces", good[:3] + good[9:10] + long[:1], [(), (2, 131, 253)])
    run("sinsemilla", "hash", "forge", [seq([piece(n) for n in s]) for s in ((1,), (2,), (3,), (1, 2), (2, 1), (2, 2, 2))] + [seq([piece(2, 1)]), seq([piece(1, 512), piece(1)])], forge=True)
    # Merkle layers and paths
    num = lambda: bits(rnd.choice(([], [0], [239, 240], range(254), [250], [249], [253], [254], [254, 0, 123], rnd.sample(range(254), 120), rnd.sample(range(254), 120))))
    dense = lambda: bits(rnd.sample(range(254), 120))
    some = [seq([l, num(), num()]) for l in (0, 1, 2, 31, 512, 1023) for _ in range(12 if t else 3)]
    run("sinsemilla", "layer", "layers", some)
    run("sinsemilla", "layer", "forge", [seq([l, dense(), dense()]) for l in ((1, 1023, 5, 0) if t else (1, 1023))] + [seq([2, bits([3, 250]), bits([254, 4])]), seq([4, dense(), bits([0, 7, 100, 200])])], forge=True)
    for op in ("root", "root2"):
        run("sinsemilla", op, "paths", [seq([dense(), num(), num(), dense()]) for _ in range(4 if t else 1)], poss=range(8))
    for (cmd, _), out in zip(jobs, pool([j for _, j in jobs])):
        c.replay(cmd, out, exe="smallverif", need=1)
        c.sample(out, 1)
    c.assumptions = ["nobody knows a relation between the generators, so that the exceptional cases of incomplete addition are not reached",
                     "a Merkle layer may encode a node by any 255-bit number congruent to it"]
    return c.finish()


CHECKS = dict(C27=c27, C26=c26, C24=c24, C25=c25)
