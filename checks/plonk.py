"""C11, C12: proofs and the mock prover against what circuits mean (spec/Plonk.tla)."""
import json, os
from vlib import Check, Raw, ToolError


def a(c, r=0): return ["a", c, r]
def f(c, r=0): return ["f", c, r]
def ins(c, r=0): return ["i", c, r]
def s(i): return ["s", i]
def k(n): return ["c", n]
def add(x, *ys):
    for y in ys:
        x = ["+", x, y]
    return x
def mul(x, *ys):
    for y in ys:
        x = ["*", x, y]
    return x
def neg(x): return ["-", x]
def sub(x, y): return add(x, neg(y))
CH = ["ch", 0]


def cell(col, off=0, dom="V", eq=True, **kw):
    d = dict(col=col, off=off, dom=dom, eq=eq)
    d.update(kw)
    return d


def tmpl(h, sel=(), fix=(), cells=()):
    return dict(h=h, sel=[list(x) for x in sel], fix=[list(x) for x in fix], cells=list(cells))


def shape(k=5, adv=(0,), fix=0, ins=0, sel=(), tables=(), chal=(), eq=(), consts=None, mindeg=None, gates=(), lookups=()):
    d = dict(k=k, adv=list(adv), fix=fix, ins=ins, sel=list(sel), tables=[list(t) for t in tables], chal=list(chal), eq=[list(e) for e in eq],
             gates=[list(g) for g in gates], lookups=list(lookups))
    if consts is not None:
        d["consts"] = consts
    if mindeg:
        d["mindeg"] = mindeg
    return d


EQ = lambda n, i=0: [["a", x] for x in range(n)] + [["i", x] for x in range(i)]

# name -> (shape, menu, bounds)
SHAPES = {}
# products, sums, previous/next rows, a gate switched by a fixed column, one by a product of both
SHAPES["arith"] = (
    shape(k=5, adv=[0, 0, 0], fix=2, ins=1, sel=[0, 0], eq=EQ(3, 1), consts=1,
          gates=[[mul(s(0), sub(mul(a(0), a(1)), a(2)))],
                 [mul(s(1), sub(add(a(0, -1), a(1)), a(2, 1))), mul(s(1), a(1), sub(a(1), k(1)))],
                 [mul(f(0), sub(a(0), ["k", a(1, 2), 2]))]]),
    [tmpl(1, sel=[(0, 0)], cells=[cell(0), cell(1), cell(2)]),
     tmpl(3, sel=[(1, 1)], cells=[cell(0, 0), cell(1, 1), cell(2, 2)]),
     tmpl(3, fix=[(0, 0, 3)], cells=[cell(0, 0), cell(1, 2)]),
     tmpl(1, cells=[cell(2), cell(0, dom="K", val=2)])],
    dict(vals=(0, 2), insts=[[[1, 2]]], consts=(0, 2), regions=2, links=1))
# lookups: one table column, two columns together, a dynamic table
SHAPES["lookup"] = (
    shape(k=5, adv=[0, 0], fix=1, sel=[1, 1, 1, 1], tables=[[0, 1, 3], [0, 2], [0, 5]], eq=EQ(2), consts=0,
          lookups=[dict(kind="table", ins=[mul(s(0), a(0))], cols=[0]),
                   dict(kind="table", ins=[mul(s(1), a(0)), mul(s(1), a(1))], cols=[1, 2]),
                   dict(kind="any", ins=[mul(s(2), a(0))], tab=[mul(s(3), a(1))])]),
    [tmpl(1, sel=[(0, 0)], cells=[cell(0)]),
     tmpl(1, sel=[(1, 0)], cells=[cell(0), cell(1)]),
     tmpl(2, sel=[(2, 0), (3, 1)], cells=[cell(0), cell(1, 1)]),
     tmpl(1, sel=[(3, 0)], cells=[cell(0), cell(1)])],
    dict(vals=(0, 1, 2, 3, 5), insts=[[]], consts=(1,), regions=2, links=0))
# two phases: the prover answers a challenge
CH1 = ["ch", 1]    # of two challenges, the second one is used
SHAPES["phase"] = (
    shape(k=4, adv=[0, 1, 1], fix=1, ins=1, sel=[0, 0], chal=[0, 0], eq=EQ(3, 1), consts=0,
          gates=[[mul(s(0), sub(a(1), add(mul(CH1, a(0)), k(1))))],
                 [mul(s(1), sub(mul(a(0), a(1)), a(2, 1)))]]),
    [tmpl(1, sel=[(0, 0)], cells=[cell(0), cell(1, dom="C")]),
     tmpl(2, sel=[(1, 0)], cells=[cell(0), cell(1, dom="C"), cell(2, 1, dom="C")])],
    dict(vals=(1, 2), chal=((0, 0), (1, 1), (2, 2)), insts=[[[1]]], consts=(1,), regions=2, links=0))
# many selectors, alone and together (they share fixed columns after compression)
SHAPES["select"] = (
    shape(k=4, adv=[0], fix=1, sel=[0, 0, 0, 0, 0], eq=EQ(1), consts=0, mindeg=5,
          gates=[[mul(s(i), sub(a(0), k(i)))] for i in range(4)] + [[mul(s(4), a(0), sub(a(0), k(1)))]]),
    [tmpl(1, sel=[(0, 0)], cells=[cell(0)]), tmpl(1, sel=[(1, 0)], cells=[cell(0)]), tmpl(1, sel=[(2, 0)], cells=[cell(0)]),
     tmpl(1, sel=[(3, 0)], cells=[cell(0)]), tmpl(1, sel=[(4, 0)], cells=[cell(0)]), tmpl(1, sel=[(1, 0), (4, 0)], cells=[cell(0)]),
     tmpl(2, sel=[(0, 0), (2, 1)], cells=[cell(0), cell(0, 1)]), tmpl(1, cells=[cell(0)])],
    dict(vals=(0, 1, 2, 3), insts=[[]], consts=(2,), regions=2, links=1))
# equality over enough columns to split the permutation argument, cycles through several columns
SHAPES["copy"] = (
    shape(k=4, adv=[0] * 7, fix=1, ins=2, sel=[0], eq=[["i", 1]] + EQ(7) + [["i", 0]], consts=0, gates=[[mul(s(0), sub(a(0), a(0)))]]),
    [tmpl(1, sel=[(0, 0)], cells=[cell(0), cell(3), cell(6)]), tmpl(2, cells=[cell(5, 1), cell(2, 1)]),
     tmpl(1, cells=[cell(4), cell(0, dom="I", icol=1, irow=1)])],
    dict(vals=(0, 1), insts=[[[1, 0], [0, 1]]], consts=(1,), regions=2, links=2))
# gates that read public values at several rows
SHAPES["public"] = (
    shape(k=4, adv=[0, 0], fix=1, ins=2, sel=[0, 0], eq=EQ(2, 2), consts=0,
          gates=[[mul(s(0), sub(a(0), ins(0)))], [mul(s(1), sub(add(a(0), a(1)), add(ins(0, 1), ins(1, 0))))]]),
    [tmpl(2, sel=[(0, 0)], cells=[cell(0), cell(1, 1)]), tmpl(2, sel=[(0, 1), (1, 0)], cells=[cell(0), cell(1), cell(0, 1)]),
     tmpl(3, sel=[(1, 1)], cells=[cell(0, 1), cell(1, 1), cell(0, 2)])],
    dict(vals=(0, 1, 2), insts=[[[1, 2], [0, 1]], [[0, 0], [2]], [[2, 0, 1], []]], consts=(1,), regions=1, links=1))
# a gate and a lookup of higher degree, so that the quotient has more pieces; two witnesses of everything elsewhere
SHAPES["degree"] = (
    shape(k=4, adv=[0, 0, 0], fix=1, sel=[0, 1], tables=[[0, 1, 8, 16]], eq=EQ(3), consts=0,
          gates=[[mul(s(0), sub(mul(a(0), a(0), a(0), a(0), a(0)), a(1)))]],
          lookups=[dict(kind="table", ins=[mul(s(1), a(0), a(1))], cols=[0]), dict(kind="any", ins=[mul(s(1), a(2))], tab=[a(0)])]),
    [tmpl(1, sel=[(0, 0)], cells=[cell(0), cell(1)]), tmpl(1, sel=[(1, 0)], cells=[cell(0), cell(1), cell(2)])],
    dict(vals=(0, 1, 2, 4), insts=[[]], consts=(1,), regions=2, links=0))
# every form of expression, with the constants that are treated specially (0, 1, 2), the same parts again in other orders
def scal(x, n): return ["k", x, n]
SHAPES["expr"] = (
    shape(k=4, adv=[0, 0], fix=2, ins=1, sel=[0, 0, 0, 0, 1, 0], eq=EQ(2), consts=0,
          gates=[[mul(s(0), add(sub(add(k(0), a(0)), k(0)), sub(k(0), mul(k(2), a(1))))), mul(s(0), add(mul(a(0), k(0)), mul(k(1), a(0)), mul(a(1), k(1)), neg(k(3))))],
                 [mul(s(1), sub(mul(a(0), a(0)), a(1))), mul(sub(mul(a(0), k(2)), add(a(1), scal(a(0), 0), scal(a(0), 1))), s(1))],
                 [mul(s(2), add(scal(a(0), 2), neg(neg(a(1))), neg(scal(a(1), 0)), neg(scal(a(0, 1), 3)))), mul(s(2), sub(mul(a(1), a(0)), mul(a(0, 1), a(1, 1))))],
                 [mul(s(3), sub(f(1), a(0))), mul(s(3), sub(mul(neg(k(1)), ins(0, -1)), neg(a(1, 1)))), mul(s(3), add(neg(k(0)), sub(a(0), a(0))))],
                 [mul(s(5), add(mul(add(a(0), a(1)), add(a(1), a(0))), neg(k(9)))), mul(s(5), sub(scal(sub(a(0), a(1)), -2), k(-2)))]],
          lookups=[dict(kind="any", ins=[mul(s(4), sub(k(0), a(0))), mul(scal(s(4), 2), a(1, 1)), k(0)], tab=[neg(mul(a(1), k(1))), mul(k(2), a(0)), mul(a(0), k(0))])]),
    [tmpl(1, sel=[(0, 0)], cells=[cell(0), cell(1)]), tmpl(1, sel=[(1, 0)], cells=[cell(0), cell(1)]),
     tmpl(2, sel=[(2, 0)], cells=[cell(0), cell(1), cell(0, 1), cell(1, 1)]), tmpl(2, sel=[(3, 0)], fix=[(1, 0, 2)], cells=[cell(0), cell(1, 1)]),
     tmpl(2, sel=[(4, 0)], cells=[cell(0), cell(1), cell(1, 1)]), tmpl(1, sel=[(5, 0)], cells=[cell(0), cell(1)])],
    dict(vals=(0, 1, 2, 3), insts=[[[2, 1]]], consts=(), regions=1, links=0))
# no gates at all, no lookups: only copies to public values (smallest degree)
SHAPES["bare"] = (
    shape(k=4, adv=[0, 0], fix=1, ins=1, eq=EQ(2, 1), consts=0),
    [tmpl(1, cells=[cell(0)]), tmpl(3, cells=[cell(1, 2), cell(0, 1)]), tmpl(2, cells=[cell(1), cell(1, 1)])],
    dict(vals=(0, 1, 3), insts=[[[1, 3]]], consts=(0, 3), regions=2, links=2))
# long histories of links between few cells, in any order and direction, with repetitions
SHAPES["links"] = (
    shape(k=4, adv=[0, 0], fix=1, eq=EQ(2), consts=0),
    [tmpl(3, cells=[cell(0), cell(1, 1), cell(0, 2), cell(1)])],
    dict(vals=(1, 2), insts=[[]], consts=(), regions=1, links=4, again=True, kinds={"copy"}))
# several columns of every kind, each used by a gate of its own
SHAPES["wide"] = (
    shape(k=4, adv=[0, 0, 0, 0], fix=4, ins=3, sel=[0, 0, 0], eq=EQ(4, 3), consts=3,
          gates=[[mul(s(0), sub(a(0), ins(2)))], [mul(s(1), sub(a(1, 1), add(f(2), ins(1, 1))))], [mul(f(1), sub(a(2), add(ins(0), f(0))))], [mul(s(2), sub(a(3), ins(2, 1)))]]),
    [tmpl(2, sel=[(0, 0), (1, 0)], fix=[(2, 0, 1)], cells=[cell(0), cell(1, 1)]), tmpl(2, sel=[(2, 0)], fix=[(1, 0, 1), (0, 0, 1)], cells=[cell(2), cell(3)]),
     tmpl(1, cells=[cell(3), cell(0, dom="I", icol=2, irow=1)])],
    dict(vals=(0, 1, 2), insts=[[[1], [0, 1], [2, 1]], [[0], [2], [0, 0, 2]]], consts=(2,), regions=1, links=1))
# a table without zero: rows that do not take part look up a default
SHAPES["default"] = (
    shape(k=4, adv=[0, 0], fix=1, sel=[1], tables=[[5, 7, 9], [1, 0, 2]], eq=EQ(2), consts=0,
          lookups=[dict(kind="table", ins=[add(mul(s(0), a(0)), mul(sub(k(1), s(0)), k(5))), add(mul(s(0), a(1)), sub(k(1), s(0)))], cols=[0, 1]),
                   dict(kind="table", ins=[add(mul(s(0), a(1, 1)), mul(sub(k(1), s(0)), k(9)))], cols=[0])]),
    [tmpl(2, sel=[(0, 0)], cells=[cell(0), cell(1), cell(1, 1)]), tmpl(1, cells=[cell(0), cell(1)])],
    dict(vals=(0, 1, 5, 7, 9), insts=[[]], consts=(), regions=2, links=0))
# gates that nothing switches off: they meet the rows the prover fills with noise
SHAPES["open"] = (
    shape(k=4, adv=[0, 0], fix=1, sel=[0], eq=EQ(2), consts=0,
          gates=[[mul(s(0), sub(a(0), a(1)))], [mul(a(0), sub(a(0), k(1)))]]),
    [tmpl(1, cells=[cell(0)]), tmpl(1, sel=[(0, 0)], cells=[cell(0), cell(1)])],
    dict(vals=(0, 1, 2), insts=[[]], consts=(), regions=1, links=0))


def enumerate_shape(c, name, nw=1, emit=True, mono=False, **over):
    sh, menu, b = SHAPES[name]
    b = dict(b, **over)
    tsh = dict(gates=sh["gates"], lookups=sh["lookups"], tables=sh["tables"])
    out, st = c.tlc("Plonk", dict(Shape=tsh, Menu=menu, Vals=set(b["vals"]), ChalVals=Raw("{" + ", ".join("<<%d, %d>>" % x for x in b.get("chal", ())) + "}"),
                                  Insts=Raw("{" + ", ".join(tla_seq(x) for x in b["insts"]) + "}"), Constants=set(b["consts"]), NW=nw,
                                  MaxRegions=b["regions"], MaxLinks=b["links"],
                                  LinkKinds=b.get("kinds") or {"copy", "const"} | ({"pub"} if sh["ins"] else set()), Again=b.get("again", False), Emit=emit),
                    invariants=["Chains", "Export"], properties=["Monotone"] if mono else [], name="%s_w%d" % (name, nw))
    return out, st


def tla_seq(x):
    return "<<" + ", ".join(tla_seq(y) if isinstance(y, list) else str(y) for y in x) + ">>"


def cases_of(path):
    return [json.loads(l) for l in open(path) if l.startswith('"{')]


def tangled(j):
    """The links tie all cells together and one of them is not needed: merging in every order, and repetitions."""
    comp, extra = {}, 0
    for l in j["links"]:
        a, b = tuple(l["a"]), tuple(l["b"])
        x, y = comp.setdefault(a, {a}), comp.setdefault(b, {b})
        if x is y:
            extra += a != b
            continue
        x |= y
        for z in y:
            comp[z] = x
    return extra > 0 and len(comp) == 4 and len({id(x) for x in comp.values()}) == 1


def thin(c, name, lines, want, tag="", k=None):
    """A sample of the cases, half of them satisfied as far as there are any, chosen by the seed."""
    import random
    rnd = random.Random("%s/%d/%s" % (name, c.seed, tag))
    js = [json.loads(l) for l in lines]
    yes = [x for x in js if all(x["sat"])]
    mixed = [x for x in js if any(x["sat"]) and not all(x["sat"])]
    no = [x for x in js if not any(x["sat"])]
    for g in (yes, mixed, no):
        rnd.shuffle(g)
    pick = yes[:want // 2] + mixed[:want // 4]
    pick += no[:want - len(pick)]
    p = os.path.join(c.work, "%s%s.pick.txt" % (name, tag))
    with open(p, "w") as fh:
        fh.write("".join(json.dumps(x) + "\n" for x in pick))
    return p, len(pick)


def doc(c, name, **over):
    p = os.path.join(c.work, name + "".join("_%s%s" % x for x in over.items()) + ".doc.json")
    sh, menu, _ = SHAPES[name]
    with open(p, "w") as fh:
        json.dump(dict(shape=dict(sh, **over), menu=menu), fh)
    return p


SCHEMES = ["shplonk", "gwc", "ipa", "shplonk-v1"]
# pairs of witnesses proven together: fewer values, so that the pairs stay enumerable
PAIRS = dict(arith=dict(vals=(0, 2), regions=1, links=1), lookup=dict(vals=(0, 1, 5), regions=1), phase=dict(vals=(1,), chal=((1, 1), (2, 2)), regions=1, links=1),
             copy=dict(regions=1, links=1), public=dict(vals=(1,), links=0), select=dict(vals=(0, 1), regions=1))


def bodies(c, skip=()):
    """(name, shape, witnesses, lines): every body within the bounds, for every shape."""
    for n in SHAPES:
        if n in skip:
            continue
        out, _ = enumerate_shape(c, n)
        yield n, 1, cases_of(out), out
    for n, over in PAIRS.items():
        out, _ = enumerate_shape(c, n, nw=2, **over)
        yield n, 2, cases_of(out), out
    if c.thorough:
        out, _ = enumerate_shape(c, "phase", chal=((0, 0), (1, 0), (1, 1), (1, 2), (0, 1), (2, 2)), regions=1, links=2)
        yield "phase", 1, cases_of(out), out
        out, _ = enumerate_shape(c, "arith", vals=(0, 1, 2), regions=2, links=0)
        yield "arith", 1, cases_of(out), out


def c11():
    c = Check("C11", "model_checking")
    c.build("halo")
    # links only restrict: on the specification itself
    enumerate_shape(c, "arith", emit=False, mono=True, vals=(0, 1), regions=1, links=2)
    yes = no = 0
    # "open" is for the mock prover: this prover fills the rows beyond the circuit with 0 and 1, not with noise, so whether
    # a gate that nothing switches off holds there is the prover's luck, not the circuit's meaning
    for n, (name, nw, lines, out) in enumerate(bodies(c, skip=("open",))):
        c.sample(out, 1)
        want = 700 if c.thorough else 70 if nw == 1 else 36
        p, m = thin(c, name, lines, want, tag="_w%d_%d" % (nw, n))
        j = c.replay("prove", p, exe="haloverif", args=[doc(c, name), ",".join(SCHEMES)], need=min(20, m))
        yes += j.get("counts", {}).get("accepted", 0)
        no += j.get("counts", {}).get("rejected", 0)
        if name == "links":
            hard = [l for l in lines if tangled(json.loads(l))]
            p, m = thin(c, name, hard, 3000 if c.thorough else 500, tag="_tangled")
            c.replay("prove", p, exe="haloverif", args=[doc(c, name), "shplonk"], need=min(400, m))
        # the same bodies in larger tables: more rows per thread, other domain sizes
        for kk in ((6, 7, 8, 9) if c.thorough else (7,)):
            p, m = thin(c, name, lines, 24 if c.thorough else 6, tag="_w%d_%d_k%d" % (nw, n, kk))
            c.replay("prove", p, exe="haloverif", args=[doc(c, name, k=kk), SCHEMES[(n + kk) % 4]])
    if not c.bad and (yes < 150 or no < 250):
        raise ToolError("only %d satisfied and %d unsatisfied circuits proven" % (yes, no))
    c.assumptions += ["the prover under test is the repository's own: a prover that deviates from it is the subject of C13",
                      "soundness error of the proof system (challenges are field elements of more than 250 bits)"]
    return c.finish(dict(satisfied=yes, unsatisfied=no, schemes=SCHEMES))


def c12():
    c = Check("C12", "model_checking")
    c.build("halo")
    enumerate_shape(c, "bare", emit=False, mono=True, vals=(0, 1), regions=1, links=2)
    yes = no = 0
    for n, (name, nw, lines, out) in enumerate(bodies(c)):
        c.sample(out, 1)
        p, m = thin(c, name, lines, 40000 if c.thorough else 4000, tag="_w%d_%d" % (nw, n))
        j = c.replay("mock", p, exe="haloverif", args=[doc(c, name)], need=min(100, m))
        yes += j.get("counts", {}).get("satisfied", 0)
        no += j.get("counts", {}).get("not satisfied", 0)
    if not c.bad and (yes < 2000 or no < 5000):
        raise ToolError("only %d satisfied and %d unsatisfied circuits" % (yes, no))
    return c.finish(dict(satisfied=yes, unsatisfied=no))


CHECKS = dict(C11=c11, C12=c12)


# ---- C13: the protocol ---------------------------------------------------------------------------
def body(inst, regions=(), links=(), nw=1):
    """A satisfied or unsatisfied body for keys and honest runs; regions: (template, [values per witness])."""
    return dict(inst=inst, regions=[dict(t=t, v=v) for t, v in regions], links=list(links), sat=[True] * nw)


def vals(*xs): return [[x, 0] for x in xs]


# shapes of constraint systems the protocol is checked on: (shape, menu, body)
PROTO = {}
def proto(name, sh, menu, b): PROTO[name] = (sh, menu, b)


proto("bare", shape(k=4, adv=[0], fix=1, gates=[[mul(f(0), sub(a(0), k(3)))]]),
      [tmpl(1, fix=[(0, 0, 1)], cells=[cell(0)])], body([[]], [(1, [vals(3)])]))
proto("perm1", shape(k=4, adv=[0, 0], fix=1, ins=1, eq=EQ(2, 1), consts=0, gates=[[mul(f(0), sub(a(0), a(1, 1)))]]),
      [tmpl(2, cells=[cell(0), cell(1, 1)])], body([[[2, 3]]], [(1, [vals(2, 2)])], [dict(kind="pub", a=[1, 1], col=0, row=0)]))
# several products in the permutation argument, columns of each kind
proto("perm4", shape(k=4, adv=[0] * 5, fix=2, ins=2, eq=[["f", 1], ["a", 4], ["i", 1]] + EQ(4) + [["i", 0]], consts=0,
                     gates=[[mul(f(0), sub(a(0), a(0, 1)))], [mul(f(0), ins(1, -1))]]),
      [tmpl(1, cells=[cell(0), cell(3), cell(4)])], body([[[0, 0, 0], [0]]], [(1, [vals(0, 0, 0)])], [dict(kind="copy", a=[1, 1], b=[1, 3])]))
proto("lookups", shape(k=4, adv=[0, 0, 0], fix=3, eq=EQ(1), lookups=[
          dict(kind="any", ins=[mul(f(0), a(0))], tab=[f(1)]),
          dict(kind="any", ins=[mul(f(0), a(0)), mul(f(0), a(1, 1)), k(0)], tab=[f(1), a(2, 1), mul(f(2), f(1))])]),
      [tmpl(2, fix=[(0, 0, 1), (1, 1, 4)], cells=[cell(0), cell(1), cell(2)])], body([[]], [(1, [vals(4, 0, 0)])]))
proto("phases", shape(k=4, adv=[0, 1, 2, 0, 1], fix=1, ins=1, chal=[0, 1, 0], eq=EQ(3, 1),
                      gates=[[mul(f(0), sub(a(1), mul(["ch", 0], a(0))))], [mul(f(0), sub(a(2), add(mul(["ch", 1], a(4)), mul(["ch", 2], a(3, 1)))))]]),
      [tmpl(1, cells=[cell(0), cell(3)])], body([[[1]]], [(1, [vals(1, 2)])]))
proto("degree", shape(k=4, adv=[0, 0], fix=1, eq=EQ(2), mindeg=6, gates=[[mul(f(0), mul(a(0), a(0), a(0)))], [sub(mul(a(1), a(1, 1)), mul(a(1, 1), a(1)))]],
                      lookups=[dict(kind="any", ins=[mul(a(0), a(1, 2))], tab=[mul(a(0, 2), a(1))])]),
      [tmpl(3, cells=[cell(0), cell(1)])], body([[]], [(1, [vals(0, 0)])]))
# more queries of one column than the arguments need: more blinding rows
proto("blind", shape(k=5, adv=[0, 0], fix=1, ins=1, eq=EQ(2, 1), gates=[[mul(f(0), add(*[a(0, r) for r in range(-3, 4)]))], [mul(f(0), ins(0, 1))]]),
      [tmpl(7, cells=[cell(0, 3)])], body([[[0, 1]]], [(1, [vals(5)])]))
# the place where products are chained is also queried by a gate
proto("clash", shape(k=5, adv=[0] * 5, fix=1, eq=EQ(5), gates=[[mul(f(0), sub(a(0, -6), a(0)))], [mul(f(0), sub(a(1, 1), a(1, -1)))]]),
      [tmpl(7, cells=[cell(0, 3)])], body([[]], [(1, [vals(5)])]))
# rotations further than the table is long: one point under two names
proto("wrap", shape(k=4, adv=[0, 0], fix=1, eq=EQ(2), gates=[[mul(f(0), sub(a(0, 16), a(0)))], [mul(f(0), sub(a(1, 1), a(1, -15)))]]),
      [tmpl(2, fix=[(0, 0, 1)], cells=[cell(0), cell(1, 1)])], body([[]], [(1, [vals(5, 6)])]))
proto("select", shape(k=4, adv=[0, 0], fix=1, sel=[0, 0, 0, 1], tables=[[0, 1, 3]], eq=EQ(2), consts=0, mindeg=5,
                      gates=[[mul(s(i), sub(a(0), k(i)))] for i in range(3)] + [[mul(s(3), sub(a(1), a(1)))]],
                      lookups=[dict(kind="table", ins=[mul(s(3), a(1))], cols=[0])]),
      [tmpl(1, sel=[(0, 0)], cells=[cell(0)]), tmpl(1, sel=[(1, 0)], cells=[cell(0)]), tmpl(1, sel=[(2, 0), (3, 0)], cells=[cell(0), cell(1)])],
      body([[]], [(1, [vals(0)]), (2, [vals(1)]), (3, [vals(2, 3)])]))


def twice(b):
    b = json.loads(json.dumps(b))
    for r in b["regions"]:
        r["v"] = [r["v"][0], r["v"][0]]
    b["inst"] = b["inst"] * 2
    b["sat"] = [True, True]
    return b


def c13():
    c = Check("C13", "model_checking")
    c.build("halo")
    counts, todo = {}, []
    only = os.environ.get("VERIF_ONLY")
    for name, (sh, menu, b) in PROTO.items():
        if only and name != only:
            continue
        for nw in (1, 2):
            bd = b if nw == 1 else twice(b)
            dp = os.path.join(c.work, "%s_%d.doc.json" % (name, nw))
            bp = os.path.join(c.work, "%s_%d.body.json" % (name, nw))
            csp = os.path.join(c.work, "%s_%d.cs.json" % (name, nw))
            json.dump(dict(shape=sh, menu=menu), open(dp, "w"))
            json.dump(bd, open(bp, "w"))
            import subprocess
            r = subprocess.run([os.path.join(c.bin, "haloverif"), "dumpcs", bp, csp, dp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                c.violation("key generation fails for shape %s: %s" % (name, r.stdout[-500:]), case=dict(shape=name))
                continue
            cs = json.load(open(csp))
            for scheme in ("gwc", "shplonk", "ipa"):
                todo.append((name, nw, scheme, cs, bd, dp, bp))
    from concurrent.futures import ThreadPoolExecutor

    def model(t):
        name, nw, scheme, cs = t[:4]
        return c.tlc("Protocol", dict(Cs=cs, NW=nw, Scheme=scheme, Emit=True), invariants=["Binding", "OnceEach", "Covered", "PermCovered", "Export"],
                     name="%s_%d_%s" % (name, nw, scheme), workers=2)[0]
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(model, todo))
    for (name, nw, scheme, cs, bd, dp, bp), out in zip(todo, outs):
        lines = [json.loads(l) for l in open(out) if l.startswith('"{')]
        pp, cp, tp = out + ".proto", out + ".cheats", out + ".bodies"
        open(pp, "w").write("".join(l + "\n" for l in lines if '"doc":true' in l))
        open(cp, "w").write("".join(l + "\n" for l in lines if '"doc":true' not in l))
        open(tp, "w").write(json.dumps(bd) + "\n")
        c.replay("trace", tp, exe="haloverif", args=[dp, scheme, pp])
        if scheme != "ipa":
            j = c.replay("forge", cp, exe="haloverif", args=[dp, bp, scheme, pp], need=15)
            for k_, v in j.get("counts", {}).items():
                counts[k_] = counts.get(k_, 0) + v
    if not only and not c.bad and (counts.get("accepted", 0) < 2 * 2 * len(PROTO) or counts.get("rejected", 0) < 1000):
        raise ToolError("too few forgeries: %s" % counts)
    return c.finish(dict(forgeries=counts))


CHECKS["C13"] = c13
