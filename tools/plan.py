"""Which jobs decide which property."""
from jobs import Exh, Run, Sim

LEVEL = {}
EXTRA_ASSUMPTIONS = {}
ASSUMPTIONS = [
    "the specification (spec/*.tla) states the intended behaviour; the TLC model checker is trusted",
    "the drivers call the library only through its public headers, built from /repo's working tree",
    "floating point answers are compared within stated tolerances (1e-4 for exact inference)",
]

BASE = dict(NV=5, Sizes=[2, 2, 3], MaxFac=8, Depth=25, Threads={1, 2, 3}, Loops=False, ZeroPct=30, Weak=False,
            EmitSt="none", MaxBits=29, Blocks=1, Low=False, Near=False)
INV = ("TypeOK", "ClusterWeights", "PairsOnce")


def M(name, num, ops, judge, args=(), shards=4, variant="asan", alone=True, **over):
    c = dict(BASE)
    c.update(over)
    c["Ops"] = set(ops.split())
    return Sim(name, "EFGModel", c, num, "model_driver", ["--judge=" + judge, "--scratch=@SCRATCH"] + list(args),
               variant=variant, shards=shards, invariants=INV, alone=alone, optional=variant == "ext")


def T(tier, q, t):
    return q if tier == "quick" else t


PLAN = {}


def lemma(t):
    """the answers of the specification agree with the brute force enumeration of all the assignments"""
    return Sim("lemma", "EFGLemma", dict(NV=5, Sizes=[1, 2, 3]), T(t, 200, 4000), None, invariants=["Agree"], shards=2,
               depth=5)


def prop(pid):
    def deco(f):
        PLAN[pid] = f
        return f
    return deco


MANY = dict(NV=14, Sizes=[2, 2, 2, 3], MaxFac=22, Depth=70, Low=True)
LARGE = dict(NV=4, Sizes=[1, 5, 8, 12, 24], MaxFac=6)
NEAR = dict(NV=4, Sizes=[2, 2, 3], MaxFac=6, Near=True)

ALLSTARTS = {1, 2, 3, 4, 5, 6, 7}


def X(tier, judge, starts=ALLSTARTS, deep=4, args=()):
    """every history of some calls on small models"""
    c = dict(BASE, NV=3, Sizes=[2], Ops={"report"}, Starts=set(starts), Steps=T(tier, 3, deep), EmitSt="one")
    return Exh("all_histories", "EFGExh", c, driver="model_driver", spec="XSpec", invariants=INV,
               args=["--judge=" + judge, "--scratch=@SCRATCH"] + list(args), workers=4, shards=4, timeout=T(tier, 600, 7200))


BUILDOPS = "addC addT setE remE setW graph "


@prop("C05")
def c05(t):
    n = T(t, 240, 4000)
    return [M("structure", n, BUILDOPS + "addErr copy absorb margAll crf", "struct,reject", EmitSt="one"),
            M("structure_loops", n // 2, BUILDOPS + "addErr copy absorb", "struct,reject", EmitSt="one", Loops=True,
              NV=7, MaxFac=14, Sizes=[1, 2, 3, 4]),
            M("many", n // 4, BUILDOPS + "addErr margAll", "struct,reject", EmitSt="one", args=["--names=odd"], **MANY),
            M("large", n // 4, BUILDOPS + "addErr copy absorb margAll crf", "struct,reject", EmitSt="one", **LARGE)]


@prop("C06")
def c06(t):
    n = T(t, 300, 6000)
    return [lemma(t), X(t, "marg"), M("histories", n, BUILDOPS + "marg margAll map", "marg"),
            M("scales", n // 2, BUILDOPS + "margAll map", "marg", args=["--scale"], NV=6),
            M("wide", n // 2, BUILDOPS + "margAll", "marg", NV=8, MaxFac=12, Depth=30, Sizes=[2, 2, 3, 1, 4],
              ZeroPct=60),
            M("many", n // 4, BUILDOPS + "marg margAll", "marg", **MANY),
            M("large", n // 4, BUILDOPS + "margAll map", "marg", **LARGE)]


@prop("C07")
def c07(t):
    n = T(t, 300, 6000)
    return [lemma(t), X(t, "map"), M("histories", n, BUILDOPS + "map hmap marg", "map"),
            M("scales", n // 2, BUILDOPS + "hmap margAll", "map", args=["--scale"], NV=6),
            M("wide", n // 2, BUILDOPS + "hmap map", "map", NV=8, MaxFac=12, Depth=30, Sizes=[2, 2, 3, 1, 4],
              ZeroPct=60),
            M("near_ties", n // 2, "addC setE remE hmap map marg", "map", **NEAR),
            M("many", n // 4, BUILDOPS + "hmap map marg", "map", **MANY),
            M("large", n // 4, BUILDOPS + "hmap map marg", "map", **LARGE)]


@prop("C08")
def c08(t):
    n = T(t, 300, 6000)
    return [lemma(t), M("histories", n, BUILDOPS + "joint marg map", "joint"),
            M("scales", n // 2, BUILDOPS + "joint", "joint", args=["--scale"], NV=5),
            M("wide", n // 2, BUILDOPS + "joint", "joint", NV=7, MaxFac=11, Depth=30, Sizes=[2, 3, 1, 4], ZeroPct=60),
            M("many", n // 4, BUILDOPS + "joint marg", "joint", **MANY),
            M("large", n // 4, BUILDOPS + "joint", "joint", **LARGE)]


@prop("C09")
def c09(t):
    n = T(t, 300, 6000)
    return [M("fresh", n, BUILDOPS + "fresh marg map hmap joint", "fresh,repeat"),
            M("fresh_loops", n // 2, BUILDOPS + "fresh marg", "fresh,repeat", Loops=True, Weak=True, NV=5, MaxFac=9),
            M("fresh_many", n // 4, BUILDOPS + "fresh marg map", "fresh,repeat", **MANY),
            M("large", n // 4, BUILDOPS + "fresh marg map joint", "fresh,repeat", **LARGE)]


@prop("C10")
def c10(t):
    n = T(t, 240, 4000)
    return [M("trees", n, BUILDOPS + "report marg margAll map hmap iter", "report,marg", NV=7, MaxFac=9,
              Threads={1, 2, 3, 8}),
            M("cycles", n, BUILDOPS + "report marg margAll map pair iter", "report,loopy,marg", Loops=True, Weak=True,
              NV=5, MaxFac=10, ZeroPct=0, Sizes=[2], Threads={1, 2, 4, 6}),
            M("strong", n, BUILDOPS + "report marg margAll pair iter", "report,loopy,marg", Loops=True,
              NV=5, MaxFac=9, ZeroPct=0, Sizes=[2, 2, 3]),
            M("blocks", n, BUILDOPS + "report marg margAll map iter strat", "report,loopy,marg,reject", Loops=True,
              Blocks=2, NV=7, MaxFac=13, ZeroPct=0, Sizes=[2], Depth=35),
            M("many", n // 2, BUILDOPS + "rep iter strat", "report,reject", Loops=True, **MANY),
            M("large", n // 4, BUILDOPS + "report marg margAll map iter", "report,marg", **LARGE)]


@prop("C13")
def c13(t):
    n = T(t, 300, 6000)
    return [X(t, "struct,marg"),
            M("histories", n, "addC addT setE remE evErr margAll graph", "struct,marg,reject", EmitSt="one"),
            M("late", n, "addC addT setE remE margAll", "struct,marg", EmitSt="one", NV=3, Sizes=[2, 2, 3], MaxFac=7, Depth=32),
            M("dense_ev", n // 2, "addC setE remE margAll", "struct,marg", EmitSt="one", NV=6, MaxFac=9,
              Loops=False, Depth=35),
            M("many", n // 4, "addC addT setE remE evErr marg", "struct,marg,reject", EmitSt="one", args=["--names=odd"], **MANY),
            M("large", n // 4, "addC addT setE remE evErr margAll", "struct,marg,reject", EmitSt="one", **LARGE)]


@prop("C16")
def c16(t):
    n = T(t, 300, 6000)
    return [X(t, "struct,marg,map"),
            M("histories", n, "addC addT setE remE setW wErr addErr margAll map", "struct,marg,map,reject",
              EmitSt="one"),
            M("ones", n // 2, "addC addT setE setW grad margAll", "struct,marg", args=["--rs=ln2"], EmitSt="one"),
            M("small_weights", n // 2, "addC addT setE remE setW margAll map", "struct,marg,map", EmitSt="one",
              args=["--rs=500"]),
            M("many", n // 4, "addC addT setE remE setW wErr addErr margAll", "struct,marg,reject", EmitSt="one", **MANY),
            M("large", n // 4, "addC addT setE remE setW wErr margAll map", "struct,marg,map,reject", EmitSt="one", **LARGE)]


@prop("C17")
def c17(t):
    n = T(t, 240, 4000)
    return [M("histories", n, "addC addT setE remE setW grad margAll", "grad,marg"),
            M("big_raw", n // 2, "addC addT setE setW grad", "grad", args=["--rs=8"]),
            M("many", n // 4, "addC addT setE setW grad", "grad", **MANY),
            M("large", n // 4, "addC addT setE setW grad", "grad", **LARGE)]


@prop("C18")
def c18(t):
    n = T(t, 240, 4000)
    return [M("histories", n, "addC addT setE remE setW crf crfE crfErr grad margAll", "grad,marg,reject,struct,twin",
              EmitSt="one", Depth=30, NV=5),
            M("many", n // 4, "addC addT setE remE setW crf crfE crfErr grad", "grad,reject,struct", EmitSt="one", **MANY),
            M("large", n // 4, "addC addT setE remE setW crf crfE crfErr grad margAll", "grad,marg,reject,struct,twin", EmitSt="one", **LARGE)]


@prop("C19")
def c19(t):
    n = T(t, 600, 9000)
    return [M("histories", n, "addC addT setE crf crfE mts", "mts,reject", Depth=25, ZeroPct=0),
            M("wide_evidences", n // 2, "addC addT setE crf crfE mts", "mts,reject", Depth=25, ZeroPct=0, NV=4,
              Sizes=[1, 2, 5, 8]),
            M("zeros", n // 2, "addC addT setE crf crfE mts margAll", "mts,reject,marg", Depth=30, ZeroPct=30, NV=6)]


@prop("C20")
def c20(t):
    n = T(t, 400, 5000)
    return [M("histories", n, BUILDOPS + "copy fork absorb crf margAll map", "struct,twin,marg,map", EmitSt="all", Depth=25),
            M("shared_weights", n // 2, "addT setW copy fork absorb margAll", "struct,twin,marg", EmitSt="all", Depth=30,
              NV=3, MaxFac=12),
            M("many", n // 4, BUILDOPS + "copy fork absorb crf margAll map", "struct,twin,marg,map", EmitSt="all", **MANY),
            M("cycles", n // 2, BUILDOPS + "copy fork absorb crf margAll", "struct,twin", EmitSt="all", Loops=True, NV=6),
            M("large", n // 4, BUILDOPS + "copy fork absorb crf margAll map", "struct,twin,marg,map", EmitSt="all", **LARGE)]


@prop("C21")
def c21(t):
    n = T(t, 200, 3000)
    return [M("histories", n, BUILDOPS + "json margAll crf", "struct,twin", EmitSt="all"),
            M("names_digits", n, BUILDOPS + "json margAll", "struct,twin", EmitSt="one",
              args=["--names=odd", "--scale", "--rs=0.37"], NV=7),
            M("tiny_weights", n // 2, BUILDOPS + "json margAll", "struct,twin", EmitSt="one", args=["--rs=3000000"]),
            M("many", n // 4, BUILDOPS + "json margAll", "struct,twin", EmitSt="one", **MANY),
            M("large", n // 4, BUILDOPS + "json margAll crf", "struct,twin", EmitSt="all", **LARGE),
            Sim("documents", "JsonFile", dict(MaxVars=4, MaxPots=6), T(t, 800, 12000), "json_driver",
                ["--scratch=@SCRATCH"], shards=2, invariants=["Total"])]


@prop("C23")
def c23(t):
    n = T(t, 300, 5000)
    return [M("histories", n, BUILDOPS + "addErr evErr wErr qErr margAll map crf crfE crfErr",
              "struct,reject,marg,map", EmitSt="one"),
            M("all_queries", n // 2, BUILDOPS + "addErr evErr wErr qErr margAll map joint grad copy absorb crf crfE crfErr",
              "struct,reject,marg,map,joint,grad,twin", EmitSt="all", Depth=35),
            M("many", n // 4, BUILDOPS + "addErr evErr wErr qErr margAll map crf crfE crfErr", "struct,reject,marg,map",
              EmitSt="one", **MANY),
            M("cycles", n // 2, BUILDOPS + "addErr evErr wErr qErr margAll crf crfErr", "struct,reject,twin", EmitSt="one",
              Loops=True, NV=6),
            M("large", n // 4, BUILDOPS + "addErr evErr wErr qErr margAll map crf crfE crfErr", "struct,reject,marg,map", EmitSt="one", **LARGE)]

def C(name, module, consts, num, shards=4, inv=(), variant="asan"):
    return Sim(name, module, consts, num, "core_driver", ["--scratch=@SCRATCH"], shards=shards, invariants=inv,
               variant=variant)


@prop("C01")
def c01(t):
    return [Exh("enumeration", "Range", dict(MaxVars=T(t, 4, 5), MaxSize=4, Depth=0), spec="SpecEnum",
                invariants=["InOrder", "InRange", "Complete", "FastSteps"], properties=T(t, [], ["Terminates"]),
                driver="core_driver", workers=4, shards=4, timeout=800),
            C("iterators", "Range", dict(MaxVars=5, MaxSize=4, Depth=40), T(t, 400, 8000))]


@prop("C04")
def c04(t):
    return [Exh("all_lists", "Groups", dict(MaxLen=T(t, 3, 4)), invariants=["UniqueNames", "SizeOK"],
                properties=["Untouched"], driver="core_driver", workers=4, shards=4, timeout=800),
            C("histories", "GroupHist", dict(NObj=14, Depth=40), T(t, 300, 6000), inv=["UniqueNames"])]


SCALES = (-140, -105, -60, -40, -25, 0, 0, 20, 50, 90)
FACT_OPS = {"new", "set", "clear", "copy", "replace", "expo", "clone", "merge", "permute", "corr", "finder"}
ALGEBRA = FACT_OPS | {"boost"}


def F(name, num, ops, depth=25, nv=4, sizes=(2, 2, 3), scope=3, scales=(0,)):
    return C(name, "Factors", dict(NV=nv, Sizes=list(sizes), MaxScope=scope, Depth=depth, Ops=set(ops),
                                   Scales=set(scales)), num,
             inv=["TypeOK"])


@prop("C02")
def c02(t):
    n = T(t, 400, 6000)
    return [F("updates", n, {"new", "set", "clear", "copy", "replace"}, depth=30),
            F("transitions", n // 2, {"new", "set", "clear", "copy", "replace", "clone", "permute"}, nv=3,
              sizes=(3, 4, 2), scope=2, depth=30),
            F("large", n // 4, {"new", "set", "clear", "copy", "replace", "clone", "permute"}, nv=4,
              sizes=(1, 6, 9, 12), scope=2, depth=40),
            F("scales", n // 2, {"new", "set", "clear", "copy", "replace", "clone", "permute", "merge"}, scales=SCALES),
            F("mixed", n // 2, FACT_OPS)]


@prop("C03")
def c03(t):
    n = T(t, 320, 6000)
    return [F("algebra", n, ALGEBRA, depth=25),
            F("same_sizes", n // 2, ALGEBRA, sizes=(2,), scope=4, nv=5),
            F("large", n // 2, ALGEBRA, sizes=(1, 6, 8, 12), scope=2, nv=4),
            F("scales", n // 2, ALGEBRA, scales=SCALES),
            F("threes", n // 2, ALGEBRA, sizes=(3, 3, 1), scope=3)]


@prop("C22")
def c22(t):
    return [C("train_sets", "TrainSets", dict(Depth=25), T(t, 1200, 20000), inv=["Rectangular"])]


@prop("C11")
def c11(t):
    n = T(t, 120, 3000)
    th = {1, 2, 3, 4, 6, 8}
    return [M("trees", n, BUILDOPS + "marg margAll map hmap joint grad", "marg,map,joint,grad,threads",
              Threads=th, NV=7, MaxFac=10, shards=2, alone=True),
            M("cycles", n, BUILDOPS + "margAll pair map", "loopy,threads", Threads=th, Loops=True, Weak=True, NV=6,
              MaxFac=12, ZeroPct=0, Sizes=[2], shards=2, alone=True),
            M("crf", n // 2, "addC addT setE crf crfE grad margAll", "grad,marg,threads", Threads=th, shards=2, alone=True),
            M("races_trees", n // 3, BUILDOPS + "margAll hmap joint grad", "marg", Threads={2, 4}, NV=7, MaxFac=10,
              variant="tsan", shards=2, alone=True),
            M("races_cycles", n // 3, BUILDOPS + "margAll map", "loopy", Threads={2, 4}, Loops=True, Weak=True,
              NV=6, MaxFac=12, ZeroPct=0, Sizes=[2], variant="tsan", shards=2, alone=True)]


@prop("C14")
def c14(t):
    n = T(t, 200, 4000)
    return [M("histories", n, BUILDOPS + "sample sampleZ margAll crf crfE", "sample", Threads={1, 1, 2, 3, 5}),
            M("chains", n // 2, BUILDOPS + "sample", "sample", Threads={1}, Loops=True, NV=6, MaxFac=10),
            M("large", n // 2, BUILDOPS + "sample crf crfE", "sample", Threads={1, 3}, **LARGE)]


@prop("C15")
def c15(t):
    n = T(t, 160, 2400)
    fr = dict(Depth=14, NV=4, Sizes=[2, 2, 3], Loops=True, ZeroPct=25, variant="fast")
    return [C("draws", "Draw", dict(MaxLen=6), T(t, 300, 5000), shards=2),
            M("frequencies", n, BUILDOPS + "freq", "freq", Threads={1}, **fr),
            M("frequencies_wide", n // 2, BUILDOPS + "freq", "freq", Threads={1, 3},
              **dict(fr, NV=8, Sizes=[2], MaxFac=14, Depth=22, Low=True, ZeroPct=0)),
            M("frequencies_mt", n // 2, BUILDOPS + "freq", "freq", Threads={2, 3, 4}, alone=True, shards=2, **fr),
            M("adjacent", n // 2, "addC setE remE sample", "sample", args=["--probe"], Threads={2, 3, 4}, Loops=True,
              ZeroPct=0, NV=7, MaxFac=14, Depth=22, shards=2, alone=True),
            M("races", n // 4, BUILDOPS + "sample", "sample", Threads={2, 4}, Loops=True, ZeroPct=0, NV=7, MaxFac=14,
              variant="tsan", shards=2, alone=True)]


POOL_INV = ["OneCall", "RunningInCall", "IdleWhenGone", "NoTwice"]


@prop("C12")
def c12(t):
    tr = ("PoolTrace", dict(Callers={1, 2, 3}, MaxSize=12, MaxTasks=70), "pooltrace")
    sc = dict(MaxSize=4, MaxCallers=2, MaxCalls=2, MaxTasks=20)

    def P(name, num, variant, args, **over):
        c = dict(sc)
        c.update(over)
        return Sim(name, "PoolScen", c, num, "pool_driver", ["--scratch=@SCRATCH"] + args, variant=variant, shards=2,
                   trace=tr, optional=variant == "sched", limit=120)
    return [Exh("algorithm", "PoolImpl", dict(Callers=T(t, {1, 2}, {1, 2}), MaxSize=3, MaxTasks=T(t, 3, 4),
                                              MaxCalls=T(t, 1, 2)),
                invariants=POOL_INV, properties=["Refines", "AllEnd"], workers=4, timeout=850),
            P("schedules", T(t, 40, 300), "sched", ["--runs=%d" % T(t, 1500, 10000), "--cap=%d" % T(t, 1500, 10000)]),
            P("threads", T(t, 40, 400), "asan", ["--runs=%d" % T(t, 25, 100)], MaxSize=12, MaxCallers=3, MaxTasks=70),
            P("races", T(t, 20, 200), "tsan", ["--runs=%d" % T(t, 15, 60)], MaxSize=5, MaxCallers=3)]


SHAPES = {"chain", "star", "stars", "binary", "random", "legs", "unaries"}


@prop("C24")
def c24(t):
    def B(name, num, n, modes, mags, shapes=SHAPES, driver="big_driver", **kw):
        return Sim(name, "BigTree", dict(MaxN=n, Modes=set(modes), Shapes=set(shapes), Mags=set(mags),
                                         ZeroPct=kw.pop("zero", 0), Spread=kw.pop("spread", 6)), num, driver,
                   ["--scratch=@SCRATCH"], invariants=kw.pop("invariants", ()), variant=kw.pop("variant", "fast"),
                   alone=True, **kw)
    n = T(t, 60, 1200)
    return [B("lemma", T(t, 60, 1000), 5, {"sum", "max"}, {0}, SHAPES - {"unaries"}, driver=None,
              invariants=["Agrees"], shards=1),
            B("sum", n, 300, {"sum"}, {0}, shards=2),
            B("max", n, 300, {"max"}, {0}, shards=2),
            B("ratios_sum", 2 * n, 5, {"sum"}, {0}, shards=1, spread=20),
            B("ratios_max", 2 * n, 5, {"max"}, {0}, shards=1, spread=20),
            B("ratios_two", 2 * n, 2, {"max"}, {0}, SHAPES - {"unaries"}, shards=1, spread=68),
            B("extreme_sum", n, 300, {"sum"}, {-149, -120, -100, -60, 0, 60, 100, 120, 124}, shards=2),
            B("extreme_max", n, 200, {"max"}, {-149, -120, -60, 0, 60, 121}, shards=2, zero=4),
            B("max_zeros", n, 40, {"max"}, {-149, -130, -124, 0}, shards=1, zero=15),
            B("all_tiny", n // 2, 400, {"sum", "max"}, {-149, -140}, shards=1, zero=4),
            B("all_huge", n // 2, 400, {"sum"}, {124}, shards=1),
            B("all_huge_max", n // 2, 400, {"max"}, {121}, shards=1, zero=4),
            B("impossible", n, 100, {"zero"}, {-100, 0, 100}, variant="asan", shards=2),
            M("small_impossible", n * 2, BUILDOPS + "margAll map joint", "marg,map,joint", ZeroPct=100, NV=6)]


@prop("C25")
def c25(t):
    n = T(t, 200, 3000)
    return [M("histories", n, BUILDOPS + "json margAll crf", "none", args=["--xml"], variant="ext"),
            M("digits", n, BUILDOPS + "json margAll", "none", args=["--xml", "--scale", "--rs=0.37"], variant="ext",
              NV=7),
            M("tiny_weights", n // 2, BUILDOPS + "json", "none", args=["--xml", "--rs=3000000"], variant="ext"),
            M("many", n // 4, BUILDOPS + "json", "none", args=["--xml"], variant="ext", **MANY),
            M("large", n // 4, BUILDOPS + "json margAll", "none", args=["--xml"], variant="ext", **LARGE),
            Sim("documents", "JsonFile", dict(MaxVars=4, MaxPots=6), T(t, 800, 12000), "json_driver",
                ["--xml", "--scratch=@SCRATCH"], shards=2, invariants=["Total"], variant="ext", optional=True)]


@prop("C26")
def c26(t):
    n = T(t, 240, 4000)
    return [M("random_fields", n, "addC addT setE setW grad margAll", "grad,marg", args=["--trainer"], variant="ext",
              Depth=35),
            M("conditional", n, "addC addT setE setW crf grad margAll", "grad,marg", args=["--trainer"], variant="ext",
              Depth=35),
            M("sharing", n // 2, "addT setW grad margAll", "grad,marg,struct", args=["--trainer"], variant="ext",
              Depth=35, NV=3, MaxFac=10, EmitSt="one"),
            M("many", n // 4, "addC addT setE setW crf grad", "grad", args=["--trainer"], variant="ext", **MANY),
            M("large", n // 4, "addC addT setE setW crf grad margAll", "grad,marg", args=["--trainer"], variant="ext", **LARGE)]


@prop("C27")
def c27(t):
    n = T(t, 120, 2400)
    tog = lambda k: ["--together=%d" % k]
    ops = BUILDOPS + "copy fork absorb crf crfE grad marg margAll map joint sample json mts"
    return [M("races", n, ops, "marg,map,joint,grad,sample,struct,twin,mts", args=tog(3), Threads={1}, variant="tsan",
              shards=2, EmitSt="one", Depth=30, ZeroPct=0),
            M("answers", 2 * n, ops, "marg,map,joint,grad,sample,struct,twin,mts", args=tog(4), Threads={1, 2},
              EmitSt="one", shards=2, Depth=30, ZeroPct=0),
            M("shared", n, BUILDOPS + "copy fork absorb crf margAll", "marg", args=tog(2), Threads={1}, variant="tsan",
              shards=2, Depth=30),
            M("cycles", n // 2, BUILDOPS + "copy rep margAll sample", "report,sample", args=tog(3), Threads={1}, variant="tsan",
              shards=2, Loops=True, ZeroPct=0, NV=6)]


@prop("C28")
def c28(t):
    n = T(t, 1600, 60000)
    J = lambda name, num, **c: Sim(name, "Blocks", c, num, "block_driver", invariants=["NonNegative"], shards=4,
                                   optional=True)
    return [J("blocks", n, NV=3, MaxSize=4, Depth=24, Scales={0}),
            J("scales", n, NV=2, MaxSize=3, Depth=24, Scales={0, 3, 40, -40, 70, -70}),
            J("large", n // 4, NV=3, MaxSize=20, Depth=20, Scales={0, -20, 20})]


TECHNIQUE = {p: "TLA+ specification (TLC), generated behaviours replayed into the real code" for p in PLAN}
DEFAULT_NOTE = ("Every history drawn by TLC from the TLA+ specification is replayed into the library built from the "
                "current tree and each outcome is compared with the exact one of the specification; bounded "
                "(sampled histories of bounded length on models of bounded size).")
NOTE = {}
NA = {}
