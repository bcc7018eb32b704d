"""Which jobs decide which property.  A job is a driver run whose recorded
history is validated by a trace specification (kind trace), a model-checking
run (mc), or behaviours generated by TLC and replayed into the code (gen)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers"))

ASSUME = ["CPU kernels only: neither CUDA nor MPI is available here",
          "the controlled StarPU replacement implements StarPU's documented sequential consistency; part of the jobs run on the real StarPU",
          "inexact results are compared with a relative tolerance of 2^-9, exact ones with 2^-20"]

E1 = "fill clear relu drelu gelu dgelu gelutanh_inplace dgelutanh pow sqrt_inplace scal_inplace add_scalar hypot_scalar_inverse".split()
E2 = "add hypot scal prod maximum sqrt copy gelutanh relu_forward axpy".split()
E3 = "relu_backward gelu_backward gelutanh_backward addcdiv axpy_t".split()
BC = "add_slice prod_slice add_slice3 add_fiber prod_fiber prod_fiber3".split()
RD = "sum_slice norm_slice sumprod_slice sum_fiber sumprod_fiber sumnorm nrm2".split()
ALL = E1 + E2 + E3 + ["adam", "adamw"] + BC + RD + "maxsumexp softmax softmax_inplace logsumexp embedding embedding_backward " \
    "subtract_indexed_outputs total_sum_accum gather scatter copy_intersection gemm transpose mask_scalar normalize".split()
REDUX = "sum_slice norm_slice sumprod_slice sum_fiber sumprod_fiber gemm embedding_backward maxsumexp".split()


def chunks(l, n):
    return [l[i::n] for i in range(min(n, len(l)))]


def ops(seed, names, per, mode="plain", parts=8, shim=True, tag=""):
    """per cases of each operation, spread over parallel driver runs"""
    js = []
    for i, g in enumerate(chunks(names, parts)):
        js.append(dict(name="ops-%s%s-%s" % (mode, tag or ("" if shim else "-real"), "+".join(g)[:40] + ("..%d" % i)), shim=shim,
                       argv=["ops.py", "@OUT", str(seed * 1000 + i), ",".join(g), str(per * len(g)), mode]))
    return js


def spread(seed, names, per, mode="plain", parts=8, shim=True):
    """few operations, many cases each: split the cases instead"""
    js = []
    for i in range(parts):
        js.append(dict(name="ops-%s%s-%s.%d" % (mode, "" if shim else "-real", "+".join(names)[:40], i), shim=shim,
                       argv=["ops.py", "@OUT", str(seed * 1000 + 500 + i), ",".join(names), str(max(1, per // parts) * len(names)), mode]))
    return js


def oplevel(names):
    def f(tier, seed):
        k = 400 if tier == "quick" else 3000
        js = spread(seed, names, k if len(names) > 6 else 4 * k, parts=8 if tier == "quick" else 24)
        js += spread(seed + 7, names, k // 4, shim=False, parts=2)
        return js + tileops(seed, [o for o in names if o in TILEOPS] + (["nrm2_tile"] if "nrm2" in names else []), 40 if tier == "quick" else 400, 1 if tier == "quick" else 4)
    return f


def tileops(seed, names, per, parts, mode="plain"):
    """the same operations on single tiles"""
    return [dict(name="tile-%s.%d" % (mode, i), argv=["tiles.py", "@OUT", "%d%d" % (seed, 90 + i), ",".join(names), str(per * len(names)), mode]) for i in range(parts if names else 0)]


TILEOPS = [o for o in ALL if o not in ("embedding", "embedding_backward", "transpose", "gather", "scatter", "hypot_scalar_inverse", "nrm2")] + ["nrm2_tile"]


def script(name, argv, n, shim=True, **k):
    """n runs of a driver with different seeds; @S in argv is the seed, @K the number of the run"""
    return [dict(name="%s%s.%d" % (name, "" if shim else "-real", i), shim=shim, argv=[str(x).replace("@K", str(i)) for x in argv], **k) for i in range(n)]


def tokens(seed, count, n, mode="plain", shim=True):
    return script("bits-" + mode, ["tokens.py", "@OUT", "%d@K" % seed, count, mode], n, shim)


def c07(tier, seed):
    q = tier == "quick"
    return oplevel("copy gather scatter copy_intersection".split())(tier, seed) + tokens(seed, 400 if q else 4000, 4 if q else 16) + \
        tokens(seed, 300 if q else 3000, 2 if q else 8, "reject") + tokens(seed + 1, 200 if q else 2000, 2, shim=False)


def c15(tier, seed):
    q = tier == "quick"
    js = [dict(kind="mc", module="TilingMC", name="mc-tiling", workers="4"), dict(kind="mc", module="WideTest", name="mc-wide", workers="2"),
          dict(name="traits-small", module="TraitsTrace", argv=["traits.py", "@OUT", "1", "1", "small"])]
    if not q: js.append(dict(kind="mc", module="TilingMC", cfg="TilingMC4", name="mc-tiling-4", workers="8", mem="8g", timeout=800))
    return js + script("traits", ["traits.py", "@OUT", "%d@K" % seed, 250 if q else 3000, "traits"], 4 if q else 12, module="TraitsTrace") + \
        script("wide", ["traits.py", "@OUT", "%d@K" % seed, 300 if q else 3000, "wide"], 3 if q else 8, module="TraitsTrace")


def c16(tier, seed):
    q = tier == "quick"
    return [dict(kind="mc", module="TilingMC", name="mc-tiling", workers="4"),
            dict(name="cyclic-small", module="TraitsTrace", argv=["traits.py", "@OUT", "1", "1", "smallcyclic"])] + \
        script("cyclic", ["traits.py", "@OUT", "%d@K" % seed, 1500 if q else 15000, "cyclic"], 4 if q else 12, module="TraitsTrace")


def c17(tier, seed):
    q = tier == "quick"
    return script("randn", ["randn.py", "@OUT", "%d@K" % seed, 250 if q else 3000], 6 if q else 16, module="RandnTrace") + \
        script("randn", ["randn.py", "@OUT", "%d9@K" % seed, 150 if q else 1500], 2, shim=False, module="RandnTrace")


def c27(tier, seed):
    q = tier == "quick"
    js = []
    for i, g in enumerate(chunks(TILEOPS, 6 if q else 12)):
        for mode in ("plain", "reject"):
            for shim in (True, False) if mode == "plain" else (True,):
                js.append(dict(name="tile-%s%s.%d" % (mode, "" if shim else "-real", i), shim=shim,
                               argv=["tiles.py", "@OUT", "%d%d" % (seed, i), ",".join(g), str((15 if not shim else 40 if mode == "plain" else 250) * len(g) * (1 if q else 25)), mode]))
    return js


def c13(tier, seed):
    k = 480 if tier == "quick" else 6000
    return spread(seed, REDUX, k, "redux", parts=8 if tier == "quick" else 24) + spread(seed + 7, REDUX, k // 4, "redux", shim=False, parts=2) + \
        alsonets("linear,embed,mha,flash,crossentropy,ln,addslice", 20)(tier, seed)


NETS = "linear,act,add,addslice,embed,ln,gap,mlp,mixer,mha,flash,flashops,frob,crossentropy"


def plus(f, *more):
    """further jobs (tier, seed) after those of f"""
    return lambda tier, seed: f(tier, seed) + [j for m in more for j in m(tier, seed)]


def alsonets(kinds, per):
    n = kinds.count(",") + 1
    return lambda tier, seed: nets(seed + 11, kinds, per * n, 2) if tier == "quick" else nets(seed + 11, kinds, 10 * per * n, 8)


def alsotrain(kinds, k):
    return lambda tier, seed: train(seed + 11, kinds, k, 1) if tier == "quick" else train(seed + 11, kinds, 10 * k, 4)


def c14(tier, seed):
    k = 900 if tier == "quick" else 6000
    js = spread(seed, ALL, k, "reject", parts=8 if tier == "quick" else 32)
    # layers and models built from arguments that fit and that do not
    js += nets(seed, "build", 600 if tier == "quick" else 8000, 2 if tier == "quick" else 8)
    return js + tileops(seed, TILEOPS, 60 if tier == "quick" else 1200, 2 if tier == "quick" else 8, "reject")


def beh(seed, name, n, rep, mode="plain", parts=4, shim=True, depth=80, cfg=None, rt=False, env=None):
    """programs generated from spec/ProgGen.tla, replayed under rep schedules each"""
    js = []
    for i in range(parts):
        js.append(dict(kind="gen", gen="ProgGen", cfg=cfg or "ProgGen", name="%s-%s%s.%d" % (name, mode, "" if shim else "-real", i), shim=shim,
                       args=("-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(seed * 1000 + 17 * i + 3)), rt=rt, weight=3,
                       env=dict(env or {}), argv=["replay.py", "@BEH", "@OUT", str(seed * 100 + i), str(rep), mode]))
    return js


def c01(tier, seed):
    q = tier == "quick"
    js = [dict(kind="mc", module="RuntimeMC", name="mc-runtime", workers="4", weight=5)] + WRONG + tiled(tier)
    js += beh(seed, "prog", 60 if q else 500, 3, "plain", 5 if q else 16)
    js += beh(seed + 1, "prog", 50 if q else 400, 3, "redux", 2 if q else 8)
    for i, w in enumerate((2, 4, 8) if q else (2, 3, 4, 5, 6, 7, 8)):
        js += beh(seed + 2 + i, "prog-w%d" % w, 50 if q else 400, 3, "redux" if i % 2 else "plain", 1 if q else 2, shim=False, env=dict(NNV_NCPU=str(w)))
    # the layers, optimizers and models are programs, too
    js += nets(seed, NETS, (20 if q else 400) * len(NETS.split(",")), 2 if q else 8) + nets(seed + 1, NETS, (8 if q else 80) * len(NETS.split(",")), 2, shim=False)
    js += train(seed, "model,train,opt", 30 if q else 500, 1 if q else 8) + spread(seed, ALL, 25 if q else 500, parts=2 if q else 8)
    if not q:
        js += beh(seed + 20, "long", 100, 3, "plain", 8, depth=300, cfg="ProgGenLong")
        js.append(dict(kind="mc", module="RuntimeMC", cfg="RuntimeMC3", name="mc-runtime-3", workers="8", mem="10g", timeout=800, weight=9))
    return js


def c12(tier, seed):
    q = tier == "quick"
    js = [dict(j, rt=True) for j in spread(seed, ALL, 12 if q else 150, parts=6 if q else 16)]
    js += [dict(j, rt=True) for j in spread(seed + 3, REDUX, 8 if q else 100, "redux", parts=2 if q else 4)]
    js += spread(seed + 5, ALL, 60 if q else 1000, parts=4 if q else 16)
    js += nets(seed, NETS, (4 if q else 40) * len(NETS.split(",")), 1 if q else 8, rt=True) + nets(seed + 1, NETS, (16 if q else 300) * len(NETS.split(",")), 2 if q else 8)
    js += train(seed, "opt,train,model", 24 if q else 300, 1 if q else 4) + tokens(seed, 150 if q else 1500, 1 if q else 4)
    js += script("randn", ["randn.py", "@OUT", "%d5@K" % seed, 120 if q else 1500], 1 if q else 4, module="RandnTrace")
    return js + beh(seed, "prog", 12 if q else 60, 1, "plain", 4 if q else 8, rt=True) + beh(seed + 1, "prog", 12 if q else 60, 1, "redux", 2 if q else 4, rt=True)


def life(seed, n, rep, parts, shim=True):
    """object histories generated from spec/LifeGen.tla"""
    return [dict(kind="gen", gen="LifeGen", name="life%s.%d" % ("" if shim else "-real", i), shim=shim, weight=2,
                 args=("-simulate", "num=%d" % n, "-depth", "60", "-seed", str(seed * 1000 + 31 * i + 7)),
                 rt="LifecycleTrace" if shim else False, argv=["life.py", "@BEH", "@OUT", str(seed * 100 + i), str(rep)]) for i in range(parts)]


def c18(tier, seed):
    q = tier == "quick"
    return [dict(kind="mc", module="LifecycleMC", cfg="LifecycleMC" if q else "LifecycleMC3", name="mc-lifecycle", workers="2" if q else "8", mem="3g" if q else "10g", timeout=800),
            dict(kind="mc", module="LifecycleMC", cfg="LifecycleMCBad", name="mc-lifecycle-wrong", workers="1", expect="CanFinish")] + \
        life(seed, 60 if q else 500, 2, 6 if q else 16) + life(seed + 1, 40 if q else 300, 2, 2 if q else 4, shim=False) + \
        nets(seed, NETS + ",build", 140 if q else 2800, 2 if q else 8) + \
        train(seed, "model,train,opt", 36 if q else 600, 2 if q else 8)     # everything is released by who owns it


def nets(seed, kinds, count, parts, shim=True, rt=False):
    return script("nets-" + kinds.replace(",", "+")[:40], ["nets.py", "@OUT", "%d@K" % seed, kinds, count], parts, shim, rt=rt)


def layers(kinds, kq=60, more=None, rt=6):
    def f(tier, seed):
        q = tier == "quick"
        n = kinds.count(",") + 1
        js = nets(seed, kinds, kq * n, 6) if q else nets(seed, kinds, 8 * kq * n, 20)
        js += nets(seed + 7, kinds, kq // 3 * n * (1 if q else 6), 2, shim=False)
        js += nets(seed + 3, kinds, rt * n, 1 if q else 6, rt=True)
        return js + (more(tier, seed) if more else [])
    return f


def train(seed, kinds, count, parts, shim=True, rt=False):
    return script("train-" + kinds.replace(",", "+"), ["train.py", "@OUT", "%d@K" % seed, kinds, count], parts, shim, rt=rt)


def trainlevel(kinds, kq):
    def f(tier, seed):
        q = tier == "quick"
        js = train(seed, kinds, kq if q else 10 * kq, 6 if q else 20) + train(seed + 7, kinds, max(2, kq // 3) * (1 if q else 6), 2, shim=False)
        return js + train(seed + 3, kinds, 1 if q else 2, 1 if q else 4, rt=True)
    return f


def c25(tier, seed):
    k = 200 if tier == "quick" else 2000
    return spread(seed, ALL, k, "types", parts=8 if tier == "quick" else 32) + spread(seed + 7, ALL, k // 4, "types", shim=False, parts=2) + \
        spread(seed, ALL, k // 4, parts=4) + alsonets(NETS, 8)(tier, seed)


WRONG = [dict(kind="mc", module="RuntimeMC", cfg="RuntimeMC" + w, name="mc-wrong-" + w, workers="1", expect="Consistent") for w in ("LateReader", "AllCommute")]


NUM = [dict(kind="mc", module="FixMathTest", name="mc-numbers", workers="2")]
LAWS = [dict(kind="mc", module="DenseLaws", name="mc-laws", workers="2")]


def tiled(tier):
    """the tile tasks of an operation, in any order the runtime may take, against the dense operation"""
    js = [dict(kind="mc", module="Tiled", name="mc-tiled", workers="4"),
          dict(kind="mc", module="Tiled", cfg="TiledBad", name="mc-tiled-wrong", workers="1", expect="Refines")]
    if tier != "quick": js.append(dict(kind="mc", module="Tiled", cfg="TiledLong", name="mc-tiled-long", workers="4", mem="6g", timeout=800, weight=4))
    return js


def grads(tier):
    return [dict(kind="mc", module="GradMC", cfg="GradMC" if tier == "quick" else "GradMCLong", name="mc-gradients", workers="2" if tier == "quick" else "6", mem="3g" if tier == "quick" else "6g", timeout=800)]


def with_mc(f, *more):
    """model-checking runs of the specification itself, before the jobs which bind it to the code"""
    return lambda tier, seed: [j for m in more for j in (m(tier) if callable(m) else m)] + f(tier, seed)


P = {
    "C01": c01,
    "C02": plus(with_mc(oplevel(E1 + E2 + E3), NUM, LAWS), alsonets("act,add", 60)),
    "C03": plus(with_mc(oplevel(BC), LAWS, tiled), alsonets("addslice,linear", 60)),
    "C04": with_mc(oplevel(RD), LAWS, tiled),
    "C05": plus(with_mc(oplevel(["gemm"]), LAWS, tiled), alsonets("linear", 80)),
    "C06": with_mc(oplevel(["transpose"]), LAWS),
    "C07": c07,
    "C08": plus(with_mc(oplevel("maxsumexp softmax softmax_inplace logsumexp".split()), LAWS, tiled), alsonets("flashops,mha", 40)),
    "C09": plus(oplevel(["mask_scalar"]), alsonets("mha,flash", 40)),
    "C10": plus(with_mc(oplevel("embedding embedding_backward subtract_indexed_outputs total_sum_accum".split()), tiled), alsonets("embed,crossentropy", 60)),
    "C11": plus(with_mc(layers("frob,crossentropy", 400), NUM, grads), alsotrain("train", 20)),
    "C12": c12,
    "C13": c13,
    "C14": c14,
    "C15": c15,
    "C16": c16,
    "C17": c17,
    "C18": c18,
    "C19": with_mc(layers("linear,act,add,addslice,embed,ln,gap,mlp,mixer", 25), grads),
    "C20": with_mc(layers("mha,flash,flashops", 25, rt=1), grads),
    "C21": with_mc(layers("ln", 120, oplevel(["normalize", "sumnorm"])), grads),
    "C22": plus(with_mc(trainlevel("opt", 300), NUM), lambda t, s: spread(s, ["adam", "adamw", "addcdiv"], 200 if t == "quick" else 3000, parts=1 if t == "quick" else 4), alsotrain("train", 12)),
    "C23": trainlevel("opt,bits", 300),
    "C24": trainlevel("train", 60),
    "C25": c25,
    "C26": trainlevel("model,conv", 100),
    "C27": c27,
}


def jobs(pid, tier, seed):
    return P[pid](tier, seed)

TECH = {}
NOTE = {}
