"""Random tensors: python randn.py OUT SEED COUNT"""
import sys, json
from cxx import *
import gens


def raw(a):
    """a number identifying the bit pattern, within 32 bits"""
    if a.dtype == np.float32: return [int(x) for x in a.reshape(-1, order="F").view(np.int32).tolist()]
    v = a.reshape(-1, order="F").view(np.uint64)
    m = ((v >> np.uint64(33)) ^ (v & np.uint64(0x3fffffff))).astype(np.int64)
    return [int(x) & 0x3fffffff for x in m.tolist()]


class RD(Driver):
    def start_gen(self, name, sh, ti, start, und, seed, mean, dev, tile, blocking):
        self.nops += 1
        e = dict(k="gen", start=start, sh=sh, und=und, mean=mean, dev=dev)
        if tile:
            t = t_new(DT[("f", self.prec)], sh)
            k = [len(sh), seed - 2**64 if seed >= 2**63 else seed] + start + und
            rc = L.t_op(b"randn", self.prec, (P * 1)(t), da([F(mean), F(dev)]), la(k), 0 if blocking else 1) if len(start) == len(und) == len(sh) else 1
            e["res"] = "ok" if rc == 0 else "err"
            return e, ("t", t, sh)
        tr = ct.TensorTraits(sh, ti)
        t = CLS[("f", self.prec)](tr, [0] * ntiles(sh, ti), self.tag); self.tag = t.next_tag
        try:
            if blocking:
                with Redirect(): nt.randn_async(t, start, und, seed, F(mean), F(dev))
            else: nt.randn_async(t, start, und, seed, F(mean), F(dev))
            e["res"] = "ok"
        except RuntimeError: e["res"] = "err"
        return e, ("p", t, sh)

    def finish(self, e, h, s):
        be, t, sh = h
        a = np.zeros(sh if sh else [1], dtype=NP[("f", self.prec)], order="F")
        e["s"] = s; e["shown"] = False
        if e["res"] == "ok":
            if be == "t": L.t_get(P(t), P(a.ctypes.data))
            else: t.to_array(a)
            e["shown"] = True
        e["v"] = enc(a); e["r"] = raw(a)
        if be == "t": L.t_unregister(P(t)); L.any_del(P(t))
        else: t.unregister()
        self.log(e)


def far(d, r):
    """windows of a virtual tensor of up to 2**60 elements"""
    d.prec = r.choice([32, 64])
    nd = r.choice([1, 2, 2, 3, 4])
    lg = r.choice([20, 30, 34, 40, 50, 60])
    und, left = [], lg
    for i in range(nd):
        b = min(30, left if i == nd - 1 else r.randint(0, min(30, left))); left -= b
        und.append(r.choice([1 << b, r.randint(max(1, (1 << b) // 2), 1 << b), (1 << b) - 1 or 1]))
    if r.chance(0.3): r.shuffle(und)
    seed = r.choice([r.getrandbits(62), r.getrandbits(64), 7 + r.getrandbits(40)])
    d.ncases += 1
    d.log(dict(k="case", far=True, und=und, prec=d.prec))
    if SHIM: shim("seed", r.getrandbits(60)); shim("policy", r.choice([1, 1, 0, 2]))
    # places: the far corner, random ones, and ones a power of two of positions apart
    places = [[max(0, u - r.randint(1, 6)) for u in und], [r.randrange(u) for u in und]]
    b = places[-1]
    o = list(b); lin = sum(x * numel(und[:i]) for i, x in enumerate(b)) + (1 << r.choice([16, 20, 30, 31, 32, 33, 40]))
    if lin < numel(und):
        for i, u in enumerate(und): o[i] = lin % u; lin //= u
        places.append(o)
    todo = []
    for k in range(r.randint(4, 9)):
        p = places[k % len(places)]
        st = [max(0, min(u - 1, a + r.randint(-2, 1))) for a, u in zip(p, und)]
        sh = [r.randint(1, min(4, u - a)) for a, u in zip(st, und)]
        ti = gens.tiling(r, sh)
        if r.chance(0.1):
            i = r.randrange(nd); st = list(st); st[i] = und[i] - sh[i] + 1
        mean, dev = (0, S) if k < len(places) or r.chance(0.6) else (r.randint(-16, 16) * (S // 8), r.choice([2 * S, S // 2, 0, -S]))
        e, h = d.start_gen("w", sh, ti, st, und, seed, mean, dev, r.chance(0.25), r.chance(0.3))
        d.distinct.add(json.dumps([und, st, sh, ti, mean, dev, seed]))
        todo.append((e, h, 1))
    r.shuffle(todo)
    for q in todo: d.finish(*q)
    d.log(dict(k="end", large=[]))


def run(d, seed, count):
    r = gens.R("randn/%s" % seed)
    for i in range(count):
        if r.chance(0.25):
            far(d, r)
            continue
        d.prec = r.choice([32, 64])
        nd = r.choice([0, 1, 1, 2, 2, 3, 3, 4])
        und = gens.shape(r, nd, cap=150)
        if nd == 1 and r.chance(0.3): und = [r.randint(60, 150)]
        d.ncases += 1
        if SHIM: shim("seed", r.getrandbits(60)); shim("policy", r.choice([1, 1, 0, 2]))
        d.log(dict(k="case", far=False, und=und, prec=d.prec))
        seeds = [r.choice([0, 1, r.randint(2, 1000), r.getrandbits(62), 2**63 - 1 - r.randint(0, 9), r.getrandbits(64)]) for _ in range(2)]
        if seeds[0] == seeds[1] or (seeds[0] < 3 and seeds[1] < 3): seeds[1] = 5 + r.getrandbits(61)
        todo = []
        for s in (1, 2):
            e, h = d.start_gen("w", und, und, [0] * nd, und, seeds[s - 1], 0, S, False, r.chance(0.5))
            d.finish(e, h, s)
        for _ in range(r.randint(2, 6)):
            s = r.choice([1, 1, 2])
            start = [r.randrange(u) for u in und]
            sh = [r.randint(1, u - a) for a, u in zip(start, und)]
            if r.chance(0.2): start, sh = [0] * nd, list(und)
            ti = gens.tiling(r, sh)
            st, un = list(start), list(und)
            if r.chance(0.2):
                m = r.randrange(3)
                if m == 0 and nd: k = r.randrange(nd); st[k] = r.choice([-1, und[k] - sh[k] + 1])
                elif m == 1 and nd: k = r.randrange(nd); un[k] = start[k] + sh[k] - 1
                elif r.chance(0.5): st = st + [0] if r.chance(0.5) else st[:-1]
                else: un = un + [1] if r.chance(0.5) else un[:-1]
            mean, dev = (0, S) if r.chance(0.5) else (r.randint(-16, 16) * (S // 8), r.choice([S, 2 * S, S // 2, S // 4, 0, -S]))
            tile = r.chance(0.25) and len(st) == len(un) == nd
            e, h = d.start_gen("w", sh, ti, st, un, seeds[s - 1], mean, dev, tile, r.chance(0.3))
            d.distinct.add(json.dumps([und, st, sh, ti, mean, dev, tile, seeds]))
            todo.append((e, h, s))
            if r.chance(0.4):
                for q in todo: d.finish(*q)
                todo = []
        r.shuffle(todo)
        for q in todo: d.finish(*q)
        d.log(dict(k="end", large=[i + 1 for i in (0, 1) if seeds[i] > 2**48]))


if __name__ == "__main__":
    out, seed, count = sys.argv[1:4]
    d = RD(out)
    run(d, int(seed), int(count))
    d.done()
    print(json.dumps(dict(cases=d.ncases, ops=d.nops, distinct=len(d.distinct))))
