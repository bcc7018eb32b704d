"""Single requests on tiles: python tiles.py OUT SEED OPS COUNT [plain|reject]"""
import sys, json
from cxx import *
import gens, ops


def request(op, r):
    """a generated request turned into one on single tiles"""
    if op == "nrm2_tile":
        ten, a = gens.gen("nrm2", r)
        a["op"] = op
        for t in ten:
            if t[0] == "tmp": t[1] = []; t[2] = []; t[4] = None
    else: ten, a = gens.gen(op, r)
    if op == "gemm": a["lvl"] = "tile"
    if op == "sumnorm":
        # the request on tiles accumulates
        a["acc"] = True
        for t in ten:
            if t[0] == "y": t[4] = gens.data(r, numel(t[1]), r.choice(["zero", "real"]))
    if op == "mask_scalar":
        # the tile interface masks with everything but the last dimension
        y = [t for t in ten if t[0] == "y"][0]; m = [t for t in ten if t[0] == "mask"][0]
        m[1] = y[1][:-1]; m[4] = [1 if r.chance(0.5) else 0 for _ in range(numel(m[1]))]; a["batch"] = 1
    for t in ten: t[2] = list(t[1])
    return ten, a


def run(d, seed, names, count, mode):
    r = gens.R("tile/%s/%s/%s" % (seed, ",".join(names), mode))
    for i in range(count):
        op = names[i % len(names)]
        d.prec = prec = 64 if r.chance(0.35) else 32
        ten, a = request(op, r)
        if prec == 64 and mode != "redux" and r.chance(0.5): gens.fine(op, ten, a, r)
        why = ""
        if mode == "reject":
            ten, a, why = gens.mutate(op, ten, a, r, False)
            if op == "mask_scalar": a["batch"] = 1
            for t in ten:
                if t[4] is None: t[4] = gens.data(r, numel(t[1]), "ex") if t[3] == "f" else [0] * numel(t[1])
        d.case(id=i, op=op, prec=prec, why=why)
        if SHIM: shim("seed", r.getrandbits(60)); shim("policy", r.choice([1, 1, 0, 2]))
        for n, sh, ti, dt, v, ex in ten:
            d.new(n, sh, sh, dt, on=v is not None and r.chance(0.3))
            if v is not None: d.set(n, v, ex)
        res = d.op(a, 0, blocking=r.chance(0.4))
        d.distinct.add(json.dumps([op, [t[1] for t in ten], {k: v for k, v in a.items() if not isinstance(v, str)}]))
        w = ops.written(a)
        for n in [t[0] for t in ten if t[4] is not None or (t[0] in w and res == "ok")]: d.chk(n)


if __name__ == "__main__":
    out, seed, names, count = sys.argv[1:5]
    mode = sys.argv[5] if len(sys.argv) > 5 else "plain"
    d = TileDriver(out)
    run(d, int(seed), names.split(","), int(count), mode)
    d.done()
    print(json.dumps(dict(cases=d.ncases, ops=d.nops, distinct=len(d.distinct))))
