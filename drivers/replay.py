"""Replays behaviours of spec/ProgGen.tla: python replay.py BEH OUT SEED [REPEATS [mode]]
mode: plain | redux (some accumulations go through the runtime's reductions)"""
import sys, json
from nnv import *
import gens

METHOD = {"S1": "add", "S2": "hypot", "F1": "add", "C1": "add", "C2": "add", "V1": "add", "M1": "maxsumexp"}
USES = {"sum_slice": ("y", "add"), "sumprod_slice": ("y", "add"), "sum_fiber": ("y", "add"), "sumprod_fiber": ("y", "add"),
        "gemm": ("c", "add"), "embedding_backward": ("v", "add"), "norm_slice": ("y", "hypot"), "maxsumexp": ("y", "maxsumexp")}


def values(r, name, t, cls):
    n = numel(t["sh"])
    if t["dt"] == "i": return [r.randrange(cls) for _ in range(n)]
    if t["dt"] == "b": return [r.randint(0, 1) for _ in range(n)]
    if name == "M1":
        v = []
        for _ in range(n // 2): v += [r.randint(-192, 192) * (S // 64), r.randint(64, 256) * (S // 64)]
        return v
    return [r.randint(-15, 15) * (S // 4) for _ in range(n)]


def run(d, beh, r, mode):
    d.prec = 64 if r.chance(0.3) else 32
    d.case(prec=d.prec, mode=mode)
    if SHIM:
        shim("seed", r.getrandbits(60)); shim("policy", r.choice([1, 1, 1, 2, 0])); shim("workers", r.randint(1, 5))
    names = sorted(beh["ten"]); r.shuffle(names)
    for f in names:
        t = beh["ten"][f]
        d.new(f, t["sh"], t["ti"], t["dt"])
        if mode == "redux" and f in METHOD: getattr(d.T[f], "set_reduction_" + METHOD[f])()
        if f != "N1": d.set(f, values(r, f, t, beh["cls"]), f != "M1")
    known = [f for f in names if f != "N1"]
    for e in beh["log"]:
        if SHIM and r.chance(0.3): shim("run_some", r.randint(1, 6))
        if e["k"] == "op":
            a = e["a"]; redux = 0
            if mode == "redux" and a["op"] in USES:
                f, m = USES[a["op"]]
                redux = int(METHOD.get(a[f]) == m)
            d.op(a, redux, blocking=r.chance(0.04))
            d.distinct.add(json.dumps(a, sort_keys=True))
        elif e["k"] == "chk": d.chk(e["t"])
        elif e["k"] == "set": d.set(e["t"], values(r, e["t"], beh["ten"][e["t"]], beh["cls"]), e["t"] != "M1")
        else: core.starpu.wait_for_all()
    if r.chance(0.5): core.starpu.wait_for_all()
    r.shuffle(known)
    for f in known: d.chk(f)


if __name__ == "__main__":
    beh, out, seed = sys.argv[1:4]
    rep = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    mode = sys.argv[5] if len(sys.argv) > 5 else "plain"
    d = Driver(out)
    for i, l in enumerate(open(beh)):
        b = json.loads(l)
        for k in range(rep): run(d, b, gens.R("%s/%d/%d/%s" % (seed, i, k, mode)), mode)
    d.done()
    print(json.dumps(dict(cases=d.ncases, ops=d.nops, distinct=len(d.distinct))))
