"""Data movement, bit by bit: every element is one of a table of bit patterns
(NaNs with payloads, negative zeros, denormals, infinities, extreme integers)
and the trace holds the table positions.  python tokens.py OUT SEED COUNT [plain|reject]"""
import sys, json
from cxx import *
import gens

KINDS = ["fp32", "fp64", "int64", "bool", "fp16"]
CODE = {"fp32": 0, "fp64": 1, "int64": 2, "bool": 3, "fp16": 4}
RAW = {"fp32": np.uint32, "fp64": np.uint64, "int64": np.uint64, "bool": np.uint8, "fp16": np.uint16}
NPT = {"fp32": np.float32, "fp64": np.float64, "int64": np.int64, "bool": np.bool_}
PYC = {"fp32": ct.Tensor_fp32, "fp64": ct.Tensor_fp64, "int64": ct.Tensor_int64, "bool": ct.Tensor_bool}


def table(kind, r):
    if kind == "bool": return [0, 1]
    w, m = {"fp32": (32, 23), "fp64": (64, 52), "int64": (64, 52), "fp16": (16, 10)}[kind]
    e = w - 1 - m
    inf = ((1 << e) - 1) << m
    t = [0, 1 << (w - 1), inf, inf | 1 << (w - 1), inf | 1, inf | 1 << (m - 1), inf | 1 << (w - 1) | 3, 1, (1 << m) - 1, 1 << m, inf - 1,
         (1 << w) - 1, (1 << (w - 1)) - 1]
    t = list(dict.fromkeys(t))
    while len(t) < 240:
        v = r.getrandbits(w)
        if v not in t: t.append(v)
    return t


class TokDriver(Driver):
    """tensors through Python ("py"), through C++ with tile-wise access ("c"), and host arrays ("h")"""
    def kind(self, k, r):
        self.knd = k
        self.tab = table(k, r)
        self.pos = {v: i for i, v in enumerate(self.tab)}

    def toks(self, raw): return [self.pos.get(int(v), -7) for v in raw.reshape(-1, order="F").tolist()]
    def raw(self, toks, sh): return np.array([self.tab[t] for t in toks], dtype=RAW[self.knd]).reshape(sh, order="F")

    def mk(self, name, sh, ti, be):
        if be == "py":
            t = PYC[self.knd](ct.TensorTraits(list(sh), list(ti)), [0] * ntiles(sh, ti), self.tag); self.tag = t.next_tag
        elif be == "c": t = n_new(CODE[self.knd], sh, ti)
        elif be == "pt": t = getattr(core.tile, "Tile_" + self.knd)(core.tile.TileTraits(list(sh)))
        else: t = np.zeros(sh, dtype=RAW[self.knd], order="F")
        self.T[name] = t
        self.meta[name] = (list(sh), list(ti), be, 0)
        self.log(dict(k="new", t=name, sh=list(sh), ti=list(ti), dt="i"))

    def tiles(self, name):
        sh, ti, be, _ = self.meta[name]
        grid = [-(-s // t) for s, t in zip(sh, ti)]
        for i in range(numel(grid)):
            ix = []; q = i
            for g in grid: ix.append(q % g); q //= g
            yield i, tuple(slice(a * t, min((a + 1) * t, s)) for a, t, s in zip(ix, ti, sh))

    def put(self, name, toks):
        sh, ti, be, _ = self.meta[name]
        a = self.raw(toks, sh)
        if be == "h": self.T[name] = np.asfortranarray(a)
        elif be == "pt" or be == "py" and (self.rnd.chance(0.7) or self.knd not in ("fp32", "fp64")): self.host_in(self.T[name], a, sh)
        elif be == "py":
            for i, s in self.tiles(name): self.host_in(self.tile(name, i), a[s] if sh else a, self.T[name].get_tile_shape(self.grid_ix(name, i)))
        else:
            for i, s in self.tiles(name):
                t = L.n_tile(P(self.T[name]), ctypes.c_long(i))
                b = np.array(a[s] if sh else a, order="F", copy=True)
                L.t_put(P(t), P(b.ctypes.data)); L.any_del(P(t))
        self.log(dict(k="set", t=name, v=toks, ex=True))

    def host_in(self, t, a, sh):
        b = a.reshape(sh if sh else [1], order="F")
        b = np.ascontiguousarray(b) if self.rnd.chance(0.4) else np.asfortranarray(b)
        self.fn(t, "from_array")(b.view(NPT[self.knd]))

    def host_out(self, t, sh):
        b = np.zeros(sh if sh else [1], dtype=RAW[self.knd], order="F")
        self.fn(t, "to_array")(b.view(NPT[self.knd]))
        return b

    def fn(self, t, what):
        """a method, or the function of the module"""
        if self.rnd.chance(0.7): return getattr(t, what)
        f = getattr(core.tile, "tile_" + what) if "Tile" in type(t).__name__ else getattr(core.tensor, "tensor_" + what)
        return lambda *a: f(t, *a)

    def grid_ix(self, name, i):
        sh, ti, be, _ = self.meta[name]
        ix = []
        for s, t in zip(sh, ti): g = -(-s // t); ix.append(i % g); i //= g
        return ix

    def tile(self, name, i):
        return self.T[name].get_tile(i)

    def look(self, name):
        sh, ti, be, _ = self.meta[name]
        if be == "h": a = self.T[name]
        elif be == "pt" or be == "py" and (self.rnd.chance(0.7) or self.knd not in ("fp32", "fp64")): a = self.host_out(self.T[name], sh)
        elif be == "py":
            a = np.zeros(sh, dtype=RAW[self.knd], order="F")
            for i, s in self.tiles(name):
                x = self.host_out(self.tile(name, i), list(self.T[name].get_tile_shape(self.grid_ix(name, i))))
                if sh: a[s] = x
                else: a = x
        else:
            a = np.zeros(sh, dtype=RAW[self.knd], order="F")
            for i, s in self.tiles(name):
                t = L.n_tile(P(self.T[name]), ctypes.c_long(i))
                b = np.zeros(a[s].shape, dtype=RAW[self.knd], order="F")
                L.t_get(P(t), P(b.ctypes.data)); L.any_del(P(t))
                a[s] = b
        self.log(dict(k="chk", t=name, v=self.toks(np.asarray(a))))

    def rm(self, name, mode="sync", log=True):
        t = self.T.pop(name); be = self.meta[name][2]
        if be in ("py", "pt"): t.unregister()
        elif be == "c": L.n_unregister(P(t)); L.any_del(P(t))
        if log: self.log(dict(k="del", t=name))

    def read_out(self, x, h):
        """arrays of another order or type are filled or refused"""
        if self.rnd.chance(0.4):
            z = np.zeros(h.shape, dtype=h.dtype, order="C")
            if self.rnd.chance(0.3): z = np.zeros([2 * n for n in h.shape], dtype=h.dtype, order="F")[tuple(slice(None, None, 2) for n in h.shape)]
            if not z.flags.f_contiguous:
                try:
                    self.fn(x, "to_array")(z)
                    h[...] = z
                    return
                except TypeError: pass
        if self.rnd.chance(0.1) and h.dtype == np.float64:
            z = np.full(h.shape, 7, dtype=np.float32, order="F")
            try:
                self.fn(x, "to_array")(z)
                h[...] = z
                return
            except TypeError: pass
        self.fn(x, "to_array")(h)

    def move(self, a):
        self.nops += 1
        self.attempt(a)
        op = a["op"]
        res = "ok"
        if op in ("from_array", "to_array"):
            x, h = self.T[a["x"]], self.T[a["h"]]
            try:
                if op == "from_array":
                    h2 = np.ascontiguousarray(h) if self.rnd.chance(0.4) else h
                    self.fn(x, "from_array")(h2.view(NPT[self.knd]))
                else: self.read_out(x, h.view(NPT[self.knd]))
            except RuntimeError: res = "err"
        elif self.meta[a["x"]][2] == "py":
            try: OPS[op](self, a, 0)
            except (RuntimeError, TypeError): res = "err"
        else:
            n = len(a.get("xo", []))
            k = [n] + a["xo"] + a["yo"] if op == "copy_intersection" else []
            rc = L.t_move(op.encode(), CODE[self.knd], (P * 2)(self.T[a["x"]], self.T[a["y"]]), la(k), 0 if self.rnd.chance(0.3) else 1)
            if rc == 2: sys.exit(88)
            res = "ok" if rc == 0 else "err"
        self.log(dict(k="op", a=a, res=res))


def run(d, seed, count, mode):
    r = gens.R("tok/%s/%s" % (seed, mode)); d.rnd = r
    for i in range(count):
        kind = r.choice(KINDS); d.kind(kind, r)
        be = r.choice(["py", "c"]) if kind != "fp16" else "c"
        if kind in ("fp32", "fp64") and r.chance(0.2): be = "pt"
        ops = ["gather", "scatter"] + (["copy", "copy_intersection", "copy_intersection"] if kind in ("fp32", "fp64", "int64") else []) + \
              (["from_array", "to_array"] if be == "py" else [])
        if be == "pt": ops = ["from_array", "to_array"]
        op = r.choice(ops)
        nd = r.choice([0, 1, 1, 2, 2, 3, 3, 4])
        d.case(id=i, op=op, kind=kind, be=be)
        sh = gens.shape(r, nd, cap=120); ti = gens.tiling(r, sh, over=True)
        if be == "pt": ti = list(sh)
        a = dict(op=op, x="x", y="y")
        bes = [be, be]
        if op in ("from_array", "to_array"):
            a = dict(op=op, x="x", h="h"); bes = [be, "h"]
            xs, xt = sh, ti; ys = list(sh) if sh else [1]; yt = ys
        elif op == "gather": xs, xt, ys, yt = sh, ti, sh, [s + r.choice([0, 0, 2]) for s in sh]
        elif op == "scatter": xs, xt, ys, yt = sh, [s + r.choice([0, 0, 2]) for s in sh], sh, ti
        elif op == "copy": xs, xt, ys, yt = sh, ti, sh, ti
        else:
            xs, xt = sh, ti
            ys = list(xs) if r.chance(0.3) else gens.shape(r, nd, cap=120)
            yt = list(xt) if ys == xs and r.chance(0.4) else gens.tiling(r, ys, over=True)
            a["xo"] = [r.randint(-4, 6) for _ in range(nd)]
            a["yo"] = list(a["xo"]) if r.chance(0.2) else [o + r.randint(-y + 1, x - 1) if r.chance(0.92) else o + r.choice([x, x + 3, -y, -y - 2])
                                                           for o, x, y in zip(a["xo"], xs, ys)]
        if mode == "reject":
            t = r.choice(["xs", "ys"])
            s, q = (xs, xt) if t == "xs" else (ys, yt)
            s, q = list(s), list(q)
            m = r.randrange(4)
            if m == 0 or not s: s.append(r.randint(1, 2)); q.append(1)
            elif m == 1: del s[0], q[0]
            elif m == 2: k = r.randrange(len(s)); s[k] = max(1, s[k] + r.choice([-1, 1])); q[k] = min(q[k], s[k])
            else: k = r.randrange(len(s)); q[k] = max(1, q[k] - 1)
            if op in ("from_array", "to_array") and t == "ys":
                if not s: s = [2]       # numpy makes one-dimensional arrays of 0-dimensional ones
                q = list(s)
            if be == "pt": q = list(s)
            if t == "xs": xs, xt = s, q
            else: ys, yt = s, q
            if op == "copy_intersection" and r.chance(0.3) and be == "py": a[r.choice(["xo", "yo"])] = a["xo"][:-1] + [0, 0]
        yn = "h" if "h" in a else "y"
        d.mk("x", xs, xt, bes[0]); d.mk(yn, ys, yt, bes[1])
        nt_ = len(d.tab)
        def vals(s): return [r.randrange(nt_) for _ in range(numel(s))]
        # both operands written: the part outside the range must survive
        d.put("x", vals(xs)); d.put(yn, vals(ys))
        if SHIM: shim("seed", r.getrandbits(60)); shim("policy", r.choice([1, 1, 0, 2]))
        if mode == "reject" and be == "c" and len(a.get("xo", [])) != len(a.get("yo", [])): continue
        d.move(a)
        d.distinct.add(json.dumps([op, kind, be, xs, xt, ys, yt, a.get("xo"), a.get("yo")]))
        d.look(yn); d.look("x")


if __name__ == "__main__":
    out, seed, count = sys.argv[1:4]
    mode = sys.argv[4] if len(sys.argv) > 4 else "plain"
    d = TokDriver(out)
    run(d, int(seed), int(count), mode)
    d.done()
    print(json.dumps(dict(cases=d.ncases, ops=d.nops, distinct=len(d.distinct))))
