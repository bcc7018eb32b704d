"""Shapes, tiles, index maps and distributions: python traits.py OUT SEED COUNT KIND
KIND: traits | wide (64 bits) | cyclic | small (every small shape)"""
import itertools, sys, json
from cxx import *
import gens
TT = ct.TensorTraits


def describe(d, sh, ti):
    o = json.loads(L.tr_all(ctypes.c_long(len(sh)), la(sh), ctypes.c_long(len(ti)), la(ti)))
    d.log(dict(k="traits", sh=sh, ti=ti, o=o))
    d.nops += 1
    d.distinct.add(json.dumps([sh, ti]))
    return o


def python_side(d, sh, ti, cov):
    e = dict(k="pytraits", sh=sh, ti=ti, res="ok", cov=cov, psh=[], pnd=-1, pgrid=[], pn=-1, ptiles=[])
    try:
        t = TT(sh, ti)
        e.update(psh=list(t.shape), pnd=t.ndim, pgrid=list(t.grid.shape), pn=t.nelems)
        if cov: e["ptiles"] = [list(t.get_tile_shape(t.grid.linear_to_index(i))) for i in range(t.grid.nelems)]
    except RuntimeError: e["res"] = "err"
    d.log(e)


def ask(d, f, sh, ti, ix):
    o = json.loads(L.tr_ask(f, ctypes.c_long(len(sh)), la(sh), ctypes.c_long(len(ti)), la(ti), ctypes.c_long(len(ix)), la(ix)))
    d.log(dict(k="ask", f=f, sh=sh, ti=ti, ix=ix, o=o))
    d.nops += 1


def wide(n):
    """digits to the base 10000, the lowest first"""
    if n < 0: return [-1]
    o = []
    while n: o.append(n % 10000); n //= 10000
    return o


def ws(v): return [wide(x) for x in v]


def far(d, r):
    """extents whose products need more than 32 bits"""
    nd = r.randint(1, 5)
    bits = r.choice([33, 36, 40, 50, 60])
    sh, room = [], 1 << bits
    for i in range(nd):
        m = max(1, min(room, 1 << r.randint(1, bits)))
        sh.append(r.choice([m, r.randint(1, m), r.randint(max(1, m // 2), m)]))
        room //= sh[-1]
    r.shuffle(sh)
    ti = [r.choice([1, s, r.randint(1, s), r.randint(1, s), r.randint(1, min(s, 1000)), max(1, s // 2), max(1, s - 1), s + 7]) for s in sh]
    o = json.loads(L.tr_wide(ctypes.c_long(nd), la(sh), la(ti)))
    if o["res"] != "ok": raise RuntimeError("driver: wide shape refused")
    grid = list(o["grid"])
    d.log(dict(k="wide", sh=ws(sh), ti=ws(ti), o=dict(
        res="ok", ndim=o["ndim"], n=wide(o["n"]), gn=wide(o["gn"]), ms=[ws(x) for x in o["ms"]],
        **{f: ws(o[f]) for f in ("sh", "ti", "stride", "grid", "gstride", "left")})))
    t = TT(sh, ti)      # the same from Python
    d.log(dict(k="wide", sh=ws(sh), ti=ws(ti), o=dict(
        res="ok", ndim=t.ndim, n=wide(t.nelems), gn=wide(t.grid.nelems), ms=[ws(x) for x in o["ms"]],
        sh=ws(t.shape), ti=ws(t.basetile_shape) if hasattr(t, "basetile_shape") else ws(ti), stride=ws(o["stride"]), grid=ws(t.grid.shape),
        gstride=ws(o["gstride"]), left=ws(o["left"]))))
    for f in range(6):
        for _ in range(3):
            box = grid if f in (3, 4) else sh
            lim = numel(sh) if f == 1 else numel(grid)
            if f in (1, 5): ix = [r.choice([-1, 0, lim - 1, lim, lim + 1, r.randrange(lim), r.randrange(lim), min(lim - 1, r.randrange(1 << 32, 1 << 33))])]
            else:
                ix = [r.choice([s - 1, r.randrange(s), r.randrange(s)]) for s in box]
                if r.chance(0.25): i = r.randrange(nd); ix[i] = r.choice([-1, box[i], box[i] + 1, ix[i] + (1 << 32)])
            a = json.loads(L.tr_ask(f, ctypes.c_long(nd), la(sh), ctypes.c_long(nd), la(ti), ctypes.c_long(len(ix)), la(ix)))
            d.log(dict(k="wask", f=f, sh=ws(sh), ti=ws(ti), g=ws(grid), ix=ws(ix), o=dict(res=a["res"], r=ws(a["r"]))))
            d.nops += 1
    d.distinct.add(json.dumps([sh, ti]))


def cyclic(d, g, q, start, mx, py):
    e = dict(k="cyclic", g=g, q=q, start=start, max=mx)
    if py:
        try: e["o"] = dict(res="ok", r=list(ct.distributions.block_cyclic(g, q, start, mx)))
        except RuntimeError: e["o"] = dict(res="err", r=[])
    else: e["o"] = json.loads(L.d_cyclic(ctypes.c_long(len(g)), la(g), ctypes.c_long(len(q)), la(q), start, mx))
    d.log(e)
    d.nops += 1
    d.distinct.add(json.dumps([g, q, start, mx]))


def run(d, seed, count, kind):
    r = gens.R("traits/%s/%s" % (seed, kind))
    if kind == "small":
        # everything small: extents and tiles up to 3 in up to 3 dimensions
        d.log(dict(k="case"))
        for nd in range(4):
            for sh in itertools.product(range(1, 4), repeat=nd):
                for ti in itertools.product(range(1, 5), repeat=nd): describe(d, list(sh), list(ti))
        return
    if kind == "smallcyclic":
        d.log(dict(k="case"))
        for nd in range(3):
            for g in itertools.product(range(1, 4), repeat=nd):
                for q in itertools.product(range(1, 4), repeat=nd):
                    for mx in range(1, 5):
                        for st in range(-1, mx + 1): cyclic(d, list(g), list(q), st, mx, False)
        return
    for _ in range(count):
        d.ncases += 1
        d.log(dict(k="case"))
        if kind == "wide":
            far(d, r)
            continue
        nd = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        sh = [r.randint(1, 9) for _ in range(nd)]
        if nd and r.chance(0.2): sh[r.randrange(nd)] = r.randint(10, 40)
        while numel(sh) > 400: sh[sh.index(max(sh))] = r.randint(1, 3)
        ti = [r.choice([1, s, s, r.randint(1, s), r.randint(1, s), r.randint(1, 2 * s)]) for s in sh]
        if kind == "cyclic":
            q = [r.randint(1, 5) for _ in range(nd)]
            mx = r.randint(1, 20); st = r.randrange(mx)
            b = r.random()
            if b < 0.1: st = r.choice([-1, mx, mx + 1])
            elif b < 0.15: mx = r.choice([0, -1]); st = 0
            elif b < 0.2 and nd: q[r.randrange(nd)] = r.choice([0, -1])
            elif b < 0.25: q = q + [1] if r.chance(0.5) else q[:-1]
            elif b < 0.3 and nd: sh[r.randrange(nd)] = r.choice([0, -2])
            cyclic(d, sh, q, st, mx, r.chance(0.5))
            continue
        bad = r.chance(0.2)
        if bad:
            m = r.randrange(4)
            if m == 0: ti = ti + [1]
            elif m == 1 and nd: ti = ti[:-1]
            elif m == 2 and nd: ti[r.randrange(nd)] = r.choice([0, -1])
            elif nd: sh[r.randrange(nd)] = r.choice([0, -1])
        o = describe(d, sh, ti)
        python_side(d, sh, ti, r.chance(0.5))
        if o["res"] != "ok": continue
        grid = [-(-s // t) for s, t in zip(sh, ti)]
        for f in range(8):
            for _ in range(4):
                box = grid if f in (3, 4, 6) else sh
                lim = numel(sh) if f == 1 else numel(grid)
                if f in (1, 5, 7): ix = [r.choice([-1, 0, lim - 1, lim, lim + 1, r.randrange(lim)])]
                else:
                    ix = [r.randrange(s) for s in box]
                    c = r.random()
                    if c < 0.3 and nd: i = r.randrange(nd); ix[i] = r.choice([-1, box[i], box[i] + 1])
                    elif c < 0.4: ix = ix + [0] if r.chance(0.5) else ix[:-1]
                ask(d, f, sh, ti, ix)
        n = numel(grid); n2 = max(0, n + r.choice([0, 0, -1, 1, 2]))
        if n2 <= 60:
            rc = L.n_baddistr(ctypes.c_long(nd), la(sh), la(ti), ctypes.c_long(n2))
            d.log(dict(k="distr", sh=sh, ti=ti, n=n2, res="ok" if rc == 0 else "err"))
        m = np.zeros(numel(sh) + 4); cap = max(0, numel(sh) + r.choice([0, 1, -1, -2, 3]))
        t = L.t_on(1, ctypes.c_long(nd), la(sh), P(m.ctypes.data), ctypes.c_long(cap))
        d.log(dict(k="tileon", sh=sh, cap=cap, res="ok" if t else "err"))
        if t: L.t_unregister(P(t)); L.any_del(P(t))


if __name__ == "__main__":
    out, seed, count, kind = sys.argv[1:5]
    d = Driver(out)
    run(d, int(seed), int(count), kind)
    d.done()
    print(json.dumps(dict(cases=max(1, d.ncases), ops=d.nops, distinct=len(d.distinct))))
