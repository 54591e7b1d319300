"""C01..C08: the Brainfuck virtual machine and its circuit (spec/BF.tla, BFMachine.tla, BFCircuit.tla)."""
import random
from vlib import Check, Raw

OPS = {60, 62, 43, 45, 44, 46, 91, 93}
COMMENT = 32
MACHINE_INV = ["CompileRight", "OnBoundary", "CellsInRange", "PointerInTape", "LastWrite", "Completeness", "Export"]


def srcs(*ss):
    return set(Raw("<<" + ", ".join(str(b) for b in (s.encode("latin1") if isinstance(s, str) else s)) + ">>") for s in ss)


Raw.__hash__ = lambda self: hash(self.s)
Raw.__eq__ = lambda self, o: isinstance(o, Raw) and self.s == o.s


def machine(c, name, R=4, alphabet=OPS, inputs=(0, 1, 3), maxsrc=0, maxclk=40, maxin=3, sources=(), emit="run", simulate=None,
            depth=100, props=("SourceStep",), inv=None, timeout=800):
    return c.tlc("BFMachine", dict(CellRange=R, Off=set(), Alphabet=set(alphabet), InputVals=set(inputs), MaxSrc=maxsrc,
                                   MaxClk=maxclk, MaxIn=maxin, Sources=set(sources), EmitKind=emit),
                 invariants=inv or MACHINE_INV, properties=props, name=name, simulate=simulate, depth=depth, timeout=timeout)


def random_programs(seed, n, length, depth=4, ops="<>+-.,", start_right=2):
    """Balanced programs, random but with loops that tend to end."""
    rnd = random.Random(seed)
    out = []

    def body(k, d):
        s = ""
        while k > 0:
            x = rnd.random()
            if x < 0.12 and d < depth and k > 4:
                m = rnd.randrange(2, max(3, k - 2))
                inner = body(m, d + 1)
                # make the loop count down most of the time
                s += "[" + (rnd.choice(["-", "->+<", ">+<-", "-", "[-]"]) if rnd.random() < 0.9 else inner) + "]"
                k -= m
            else:
                s += rnd.choice(ops)
                k -= 1
        return s
    for _ in range(n):
        out.append(">" * start_right + body(length, 0))
    return out


# ------------------------------------------------------------------------------------------- C01
def c01():
    c = Check("C01", "model_checking")
    c.build()
    cinv = ["CompileRight", "Export"]
    runs = []
    kw = dict(maxclk=0, emit="compile", props=(), inv=cinv)
    runs.append(machine(c, "bytes", alphabet=range(256), maxsrc=2, **kw))
    runs.append(machine(c, "ops", alphabet=OPS | {COMMENT}, maxsrc=6 if c.thorough else 5, **kw))
    runs.append(machine(c, "brackets", alphabet={43, 91, 93, 10}, maxsrc=9 if c.thorough else 8, **kw))
    runs.append(machine(c, "nesting", alphabet={91, 93}, maxsrc=16 if c.thorough else 12, **kw))
    # addresses past 255, deep nesting, non-ASCII and control bytes inside loops, repository programs
    big = ["[" * 140 + "]" * 140, "[" + "+" * 300 + "]", "+" * 254 + "[-]", "+" * 255 + "[-]" + "[->+<]" * 40,
           "[[-]" + ">" * 260 + "[<]]", bytes([91, 0, 255, 43, 128, 93, 200, 9, 13]), bytes([91] * 3 + [227, 129, 130] + [93] * 3)]
    rnd = random.Random(c.seed)
    for _ in range(20 if not c.thorough else 60):
        s, d = "", 0
        for _ in range(rnd.randrange(20, 260)):
            x = rnd.choice("+-<>.,[[]]# \n")
            if x == "]" and d == 0:
                x = "["
            d += (x == "[") - (x == "]")
            s += x
        big.append(s + "]" * d)
    kw["inv"] = ["Export"]   # the declarative form is cubic in the length; small programs settle CompileRight
    runs.append(machine(c, "long", sources=srcs(*big), **kw))
    for out, _ in runs:
        c.replay("compile", out)
        c.sample(out, 1)
    c.assumptions = ["balanced programs with fewer than 65536 compiled cells"]
    return c.finish()


# ------------------------------------------------------------------------------------- C02 .. C04
WRAPS = ["-", "+" * 5, "-" * 5, "-[-]", "+[+]", "++[->++<]>.", ">>+<<[>]>>.", ",[.,]", ",[->+<]>.", "+[>+<--]>.", "[-]+.", "+>+>+<[<]>.",
         "++[>++[>+<-]<-]>>.", ",.,.,.", ">,<,>.<.", ">>>>>+[<]", "[[]]", "+[[-]]", "-[>-[>-<-]<-]", "+[,]", ".+.+.+.+.+.",
         "[,]", "[<]", "+[-<]", "<", ",<", ">+<<", "+[<]", "++[<-]", ",", "[.],", "+,"]
LONG = ["+" * 256 + ".", "-" * 257 + ".", "-[-]", "-[>+<-]>.", ">" * 300 + "+." + "<" * 300 + ".", "+[>+<+]>.", "+[+]."]


def runs_for(c, what):
    t = c.thorough
    runs = []
    runs.append(machine(c, "ops", maxsrc=5 if t else 4, maxclk=40))
    runs.append(machine(c, "loops", alphabet={43, 45, 62, 91, 93}, maxsrc=7 if t else 6, maxclk=30))
    runs.append(machine(c, "io", alphabet={43, 44, 46, 60, 62}, maxsrc=5 if t else 4, inputs=(0, 1, 2, 3), maxclk=30))
    runs.append(machine(c, "curated", R=4, sources=srcs(*WRAPS), maxclk=220, maxin=3))
    runs.append(machine(c, "bits1", R=2, maxsrc=4 if t else 3, inputs=(0, 1), maxclk=30))
    runs.append(machine(c, "bytes", R=256, maxsrc=4 if t else 3, inputs=(0, 1, 10, 127, 128, 255), maxclk=12))
    runs.append(machine(c, "wide", R=256, sources=srcs(*(LONG[:5] if not t else LONG)), inputs=(255,), maxclk=1700, props=(),
                        inv=["CellsInRange", "PointerInTape", "Export"]))
    progs = random_programs(c.seed, 60 if t else 25, 24)
    runs.append(machine(c, "random", R=16, sources=srcs(*progs), inputs=(0, 7, 15), maxin=3, maxclk=400))
    return runs


def c02():
    c = Check("C02", "model_checking")
    c.build()
    for out, _ in runs_for(c, "exec"):
        c.replay("exec", out)
        c.sample(out, 1)
    c.assumptions = ["balanced programs", "inputs are values a memory cell can hold"]
    return c.finish()


def c03():
    c = Check("C03", "model_checking")
    c.build()
    for out, _ in runs_for(c, "trace"):
        c.replay("trace", out)
        c.sample(out, 1)
    c.assumptions = ["balanced programs", "all of the input is read"]
    return c.finish()


def c04():
    c = Check("C04", "model_checking")
    c.build()
    for out, _ in runs_for(c, "accept"):
        c.replay("accept", out)
        c.sample(out, 1)
    c.assumptions = ["challenges are drawn at random; gates are evaluated as polynomials over the real field"]
    return c.finish()


# ------------------------------------------------------------------------------------- C05 .. C08
def circuit(c, name, kinds, R=4, alphabet=OPS, inputs=(0, 1, 3), bad=None, maxsrc=0, maxclk=14, maxin=2, budget=1, sources=(),
            off=(), emit=True, expect_violation=False, timeout=800):
    return c.tlc("BFCircuit", dict(CellRange=R, Off=set(off), Alphabet=set(alphabet), MaxSrc=maxsrc, Sources=set(sources),
                                   InputVals=set(inputs), BadVals=set(bad or (-1, 0, 1, 2, R - 1, R)), MaxClk=maxclk, MaxIn=maxin,
                                   Budget=budget, Kinds=set(kinds), EmitCases=emit),
                 invariants=["Sound", "Complete", "Export"] if emit else ["Sound", "Complete"], name=name, timeout=timeout,
                 expect_violation=expect_violation)


LOOPY = ["++[-].", "+[>+<-]>.", "[-]+.", "+[-]+", "++[>+<-]", "+><+.", "+><+.><+.", ">+<+>.", "+>+<.>.", "[+]", "+[-[-]]", ">>+<<.", "+>++<->-."]
IO = [",.", ",+.", ",>,.<.", ",[-]", ",[.-]", ",,", ".,", ".+.", ",.,."]


def circuit_check(pid, kinds, extra_sources, off, budget2=()):
    c = Check(pid, "model_checking")
    c.build()
    t = c.thorough
    runs = [circuit(c, "small", kinds, maxsrc=4 if t else 3, bad=(-1, 0, 1, 4) if t else None)]
    runs.append(circuit(c, "loops", kinds, sources=srcs(*extra_sources), maxclk=30 if t else 22, bad=(-1, 0, 1, 3, 4)))
    runs.append(circuit(c, "bytes", kinds, R=256, maxsrc=2, inputs=(0, 1, 255), bad=(-1, 0, 1, 2, 254, 255, 256), maxclk=6,
                        sources=srcs("-+", "--", ",+", ",-", "-.", "-[+]")))
    if t:
        runs.append(circuit(c, "two", kinds, maxsrc=2, budget=2, bad=(-1, 0, 1, 4)))
        runs.append(circuit(c, "bits1", kinds, R=2, maxsrc=3, inputs=(0, 1), bad=(-1, 0, 1, 2)))
        runs.append(circuit(c, "random", kinds, R=4, sources=srcs(*[p for p in random_programs(c.seed, 12, 8, start_right=1)]), maxclk=26,
                            inputs=(0, 3), bad=(0, 3, 4), maxin=1))
    for o in off if t else off[:2]:
        # each constraint is needed: without it the specification lets a cheat through
        circuit(c, "needed_" + o, kinds, maxsrc=2, sources=srcs(*extra_sources), maxclk=22, off=(o,), emit=False, expect_violation=True,
                bad=(-1, 0, 1, 3, 4))
    for out, _ in runs:
        c.replay("circuit", out)
        c.sample(out, 1)
    c.assumptions = ["Schwartz-Zippel: challenges behave as random field elements",
                     "the adversary chooses first-phase trace values as enumerated, and every later-phase cell freely"]
    return c.finish()


def c05():
    return circuit_check("C05", ["start", "ip", "mp", "val", "clk", "pair", "stop", "quit", "row"], LOOPY, ["P1", "I0", "B", "P0", "P2", "P3", "range"])


def c06():
    return circuit_check("C06", ["far", "left", "val", "reorder", "memrow", "mp"],
                         LOOPY + [">+<+>", "><.", ">.<<", "+><.", "+>+<->.<."], ["M3", "M0", "M-first", "M1", "M2", "mem-perm"])


def c07():
    return circuit_check("C07", ["op", "target", "past", "again", "end", "quit", "stop", "start", "program", "length", "ip"], LOOPY,
                         ["code-len", "I-last", "I-first", "I0", "I12", "I3", "inst-perm", "code-sum", "code-copy"])


def c08():
    return circuit_check("C08", ["get", "out", "input", "length"], IO + LOOPY[:3], ["in-len", "in-sum", "out-sum", "in-copy"])


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08)
