"""C14..C16: polynomials, Poseidon, deferred division (spec/Field, Poly, Poseidon, Rational)."""
import itertools, random
from concurrent.futures import ThreadPoolExecutor
from vlib import Check, Raw, ToolError

FIELDS = {7: (1, 3, 3), 37: (2, 2, 6), 13: (2, 2, 4), 97: (5, 5, 7), 12289: (12, 11, 14)}   # two-adicity, generator, bits


def field(p):
    s, g, _ = FIELDS[p]
    return dict(P=p, S=s, Root=pow(g, (p - 1) >> s, p), Zeta=pow(g, (p - 1) // 3, p))


def seqs(xs):
    return set(Raw("<<" + ", ".join(map(str, x)) + ">>") for x in xs)


def pool(jobs, n=4):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda j: j(), jobs))


def c14():
    c = Check("C14", "model_checking")
    c.build("small")
    rnd = random.Random(c.seed)
    t = c.thorough
    jobs = []

    def run(p, k, j, polys, seconds, points, rots, sets, laws=("RoundTrip", "Unique", "DivRight", "Barycentric")):
        name = "p%d_k%d_j%d" % (p, k, j)
        jobs.append(lambda: c.tlc("Poly", dict(K=k, J=j, Polys=seqs(polys), Seconds=seqs(seconds), Points=set(points), Rots=set(rots), Sets=seqs(sets),
                                               Emit=True, **field(p)),
                                  invariants=list(laws) + ["Export"], name=name, workers=2)[0])

    def some(p, n, m):
        """Unit vectors, extremes and random vectors."""
        out = [tuple(int(i == q) for i in range(n)) for q in range(n)] + [(0,) * n, (p - 1,) * n, tuple(i % p for i in range(n)), tuple((i * i + 1) % p for i in range(n))]
        out += [tuple(rnd.randrange(p) for _ in range(n)) for _ in range(m)]
        return out

    def points_for(p, n):
        xs = [0, 1, p - 1, 2]
        xs += [rnd.randrange(p) for _ in range(n)]
        return xs

    def sets_for(p):
        out = [rnd.sample(range(p), m) for m in (1, 2, 3, 4, 5, 7)]
        return out + [[0], [1, 0], [0, 1, p - 1]]
    # every polynomial of the smallest domains
    run(13, 0, 2, [(i,) for i in range(13)], [(5,)], range(13), [-1, 0, 1, 2], [[3], [0]])
    run(13, 1, 3, itertools.product(range(13), repeat=2), [(1, 12), (0, 0)], [0, 1, 2, 7, 12] if not t else range(13), [-2, -1, 0, 1, 2, 3], [[2, 5]])
    run(13, 2, 2, itertools.product(range(13), repeat=4) if t else some(13, 4, 300), [(1, 2, 3, 4)], [0, 6] if t else [0, 1, 6, 11], [-4, -1, 0, 1, 5], [[1, 2, 3, 4, 5]])
    for k in (1, 2, 3, 4) if t else (2, 3):
        for j in (1, 2, 3, 4, 5, 9) if k < 3 else (2, 3, 4) if k == 3 else (2, 3):
            n = 1 << k
            run(97, k, j, some(97, n, 24 if t else 10), some(97, n, 0)[-1:], points_for(97, 3 if t else 1), [-n, -3, -1, 0, 1, 2, n, n + 1], sets_for(97)[:9 if t else 4])
    for k, j in ((3, 4), (4, 6), (5, 3)) if not t else ((3, 4), (3, 17), (4, 6), (5, 3), (5, 9), (6, 4)):
        n = 1 << k
        run(12289, k, j, some(12289, n, 6)[-8:], some(12289, n, 0)[-1:], [3, 12288], [-n, -1, 0, 1, n - 1], sets_for(12289)[4:6])
    # larger domains: the definitions only, without the laws
    for k, j in ((7, 5), (8, 3)) if not t else ((7, 5), (8, 3), (9, 4), (10, 2), (7, 17)):
        n = 1 << k
        run(12289, k, j, some(12289, n, 2)[-4:], some(12289, n, 0)[-1:], [3], [-n, -1, 1], [rnd.sample(range(12289), 20)], laws=("DivRight",))
    # thousands of rows, sparse polynomials, far rotations
    far = [-1, 0, 1, 255, 256, 257, -255, -256, -257, -300, 1000, -1000, -3000, 4095, -4097, 65535, 65537, -65537, 8388609, -8388609, 2147483647, -2147483647]
    for p, k, j in ((97, 3, 3), (12289, 9, 4), (12289, 11, 3)) if not t else ((97, 2, 2), (97, 4, 2), (97, 3, 3), (12289, 9, 4), (12289, 9, 9), (12289, 10, 5), (12289, 11, 3), (12289, 12, 2)):
        n = 1 << k
        sparse = lambda: Raw("<<" + ", ".join("<<%d, %d>>" % (e, rnd.randrange(1, p)) for e in sorted(set([0, n - 1] + [rnd.randrange(n) for _ in range(3)]))) + ">>")
        consts = dict(K=k, J=j, Polys={sparse(), Raw("<<<<%d, 1>>>>" % (n - 1))}, Seconds={sparse()}, Points={0, p - 1, 3}, Rots=set(far), Sets=seqs([[1]]), Emit=True, **field(p))
        jobs.append(lambda consts=consts, k=k, j=j, p=p: c.tlc("PolyWide", consts, invariants=["LagClosed", "DivWide", "SparseIsDense", "ExportWide"], name="wide_p%d_k%d_j%d" % (p, k, j), workers=2)[0])
    for out in pool(jobs):
        c.replay("polywide" if "wide" in str(out) else "poly", out, exe="smallverif", need=4)
        c.sample(out, 1)
    c.assumptions = ["the generic code is run on fields of 13, 97 and 12289 elements; it does not depend on the field's size"]
    return c.finish()


def c15():
    c = Check("C15", "model_checking")
    c.build("small")
    t = c.thorough
    jobs = []

    def run(p, tw, rf, rp, which, skip=0, ops=4, chunks=None, maxlen=9):
        s, g, bits = FIELDS[p]
        raw = int(((rf + rp) * tw * (2 ** bits / p) * 1.35 + 2 * tw * (4 + 2 * skip)) * bits * 2) + 400
        jobs.append(lambda: c.tlc("Poseidon", dict(Bits=bits, Tw=tw, RF=rf, RP=rp, Skip=skip, Raw=raw, MaxOps=ops, Chunks=set(chunks or range(0, 2 * tw)),
                                                   Which=which, MaxLen=maxlen, Emit=True, **field(p)),
                                  invariants=["Good", "Chunking", "Export"], name="%s_p%d_t%d_%d_%d" % (which, p, tw, rf, rp), workers=2)[0])
    run(12289, 3, 8, 57, "varlen", ops=4 if t else 3)
    run(12289, 3, 2, 1, "varlen", ops=5 if t else 4)
    run(12289, 5, 8, 10, "varlen", ops=3, chunks=None if t else (0, 1, 3, 4, 5, 8, 9))
    run(12289, 2, 4, 6, "varlen", ops=5)
    run(12289, 4, 6, 5, "varlen", ops=4 if t else 3)
    if t:
        run(12289, 9, 8, 20, "varlen", ops=3, chunks=(0, 1, 7, 8, 9, 16, 17))
    run(12289, 3, 8, 56, "const")
    run(12289, 3, 8, 57, "const", skip=1)
    run(12289, 3, 4, 3, "const", skip=2)
    run(12289, 2, 4, 6, "const")
    run(12289, 5, 8, 10, "const")
    for out in pool(jobs):
        c.replay("poseidon", out, exe="smallverif", need=5)
        c.sample(out, 1)
    c.assumptions = ["run on the field with 12289 elements: constants, optimised rounds and sponge code are generic over the field"]
    return c.finish()


def c16():
    c = Check("C16", "model_checking")
    c.build("small")
    runs = [c.tlc("Rational", dict(Nums=set(range(13)), Dens=set(range(13)) if c.thorough else {0, 1, 2, 7, 12}, Emit=True, **field(13)), invariants=["Laws", "Export"], name="all13")[0]]
    runs.append(c.tlc("Rational", dict(Nums={0, 1, 2, 50, 96}, Dens={0, 1, 3, 96, 48}, Emit=True, **field(97)), invariants=["Laws", "Export"], name="some97")[0])
    for out in runs:
        c.replay("rational", out, exe="smallverif", need=100)
        c.sample(out, 1)
    return c.finish()


CHECKS = dict(C14=c14, C15=c15, C16=c16)
