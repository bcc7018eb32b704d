"""Single requests: python ops.py OUT SEED OPS(comma) COUNT [mode]
mode: plain | redux | reject | type64"""
import sys, json
from nnv import *
import gens


# the result is multiplied by a positive number if all operands are
HOMOGENEOUS = set("""add hypot scal scal_inplace maximum copy relu relu_forward relu_backward axpy add_slice add_slice3 add_fiber
    sum_slice sum_fiber sumnorm norm_slice nrm2 gather scatter copy_intersection transpose embedding embedding_backward""".split())


AGAIN = set("axpy embedding_backward total_sum_accum sumnorm maxsumexp relu_backward gelu_backward gelutanh_backward".split())


def run(d, seed, ops, count, mode):
    r = gens.R("%s/%s/%s" % (seed, ",".join(ops), mode))
    for i in range(count):
        op = ops[i % len(ops)]
        prec = 64 if r.chance(0.35) else 32
        d.prec = prec
        ten, a = gens.gen(op, r)
        if prec == 64 and mode != "redux" and r.chance(0.5): gens.fine(op, ten, a, r)
        why = ""
        if mode == "reject":
            ten2, a2, why = gens.mutate(op, ten, a, r)
            for t in ten2:
                if t[4] is None and t[3] == "f": t[4] = gens.data(r, numel(t[1]), "ex")
                if t[4] is None: t[4] = [0] * numel(t[1])
            ten, a = ten2, a2
        precs = {}
        if mode == "types": why = retype(ten, op, prec, precs, r)
        d.scale = 0
        if mode in ("plain", "redux") and op in HOMOGENEOUS and r.chance(0.25):
            d.scale = r.choice([70, -70, 100, -100, 40] if prec == 32 else [560, -560, 900, -900, 100])
            d.prec = prec
        d.case(id=i, op=op, prec=prec, why=why, scale=d.scale)
        redux = 0
        if mode == "redux": redux = 1
        if SHIM:
            shim("seed", r.getrandbits(60)); shim("policy", r.choice([1, 1, 0, 2]))
        for n, sh, ti, dt, v, ex in ten:
            d.new(n, sh, ti, dt, precs.get(n))
            if v is not None: d.set(n, v, ex)
        if mode == "redux" or mode != "types" and r.chance(0.3): set_redux(d, op, a)
        res = d.op(a, redux, blocking=r.chance(0.25))
        # once more (or twice) with other coefficients, while the first is pending: the order matters
        if mode in ("plain", "redux") and res == "ok" and ("beta" in a or op in AGAIN) and r.chance(0.3):
            for _ in range(r.choice([1, 1, 2])):
                a = dict(a)
                for f in ("alpha", "beta"):
                    if f in a: a[f] = gens.coef(r)
                res = d.op(a, redux, blocking=False)
        d.distinct.add(json.dumps([op, [t[1:3] for t in ten], {k: v for k, v in a.items() if not isinstance(v, str)}]))
        # everything is unchanged except the results
        names = [t[0] for t in ten if t[4] is not None or t[0] in written(a)]
        if res != "ok": names = [t[0] for t in ten if t[4] is not None]
        for n in names:
            d.chk(n)


def retype(ten, op, prec, precs, r):
    """operands of other element types"""
    if r.chance(0.15): return ""
    reals = [t for t in ten if t[3] == "f"]
    def to(t, dt, p=0):
        n = numel(t[1])
        if dt == "f":
            precs[t[0]] = p
            if t[3] != "f": t[4] = [r.randint(-16, 16) * (S // 8) for _ in t[4]] if t[4] is not None else None
        elif dt == "h": t[4] = None
        elif t[3] != dt: t[4] = [r.randint(0, 1) for _ in range(n)]
        t[3] = dt
    all_ = r.chance(0.3) and len(reals) > 1
    sel = reals if all_ and reals else [r.choice(ten)]
    dt, p = r.choice([("f", 32), ("f", 64), ("f", 96 - prec), ("i", 0), ("b", 0), ("h", 0)])
    if dt == "h" and op in ("gemm", "clear"): dt = "i"      # (half precision kernels are for other devices)
    for t in sel: to(t, dt, p)
    return "%s -> %s%s" % ("+".join(t[0] for t in sel), dt, p or "")


def written(a):
    op = a["op"]
    if op in gens.ELEM1: return ["x"]
    if op in ("adam", "adamw"): return ["p", "m", "v"]
    if op.endswith("_backward") and op != "embedding_backward": return ["dx"]
    return {"gemm": ["c"], "embedding": ["e"], "embedding_backward": ["v"]}.get(op, ["y"])


def set_redux(d, op, a):
    if op in ("sum_slice", "sumprod_slice", "sum_fiber", "sumprod_fiber", "gemm"): d.T[written(a)[0]].set_reduction_add()
    if op in ("embedding_backward",): d.T["v"].set_reduction_add()
    if op == "norm_slice": d.T["y"].set_reduction_hypot()
    if op == "maxsumexp": d.T["y"].set_reduction_maxsumexp()


if __name__ == "__main__":
    out, seed, ops, count = sys.argv[1:5]
    mode = sys.argv[5] if len(sys.argv) > 5 else "plain"
    d = Driver(out)
    run(d, int(seed), ops.split(","), int(count), mode)
    d.done()
    print(json.dumps(dict(cases=d.ncases, ops=d.nops, distinct=len(d.distinct))))
