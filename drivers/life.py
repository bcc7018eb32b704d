"""Life histories generated from spec/LifeGen.tla: python life.py BEH OUT SEED [REPEATS]
OUT records values for NNTileTrace; the runtime's log, with the calls of the program marked
in it, goes to LifecycleTrace."""
import sys, json, random
from cxx import *

M = 4                                # elements of a tile
REALMODE = ["R", "W", "RW", "S"]


class Life(Driver):
    def ev(self, **d):
        if SHIM: shim("event", json.dumps(d, separators=(",", ":")).encode())

    def begin(self, o=""):
        self.n0 = shim("next") if SHIM else 0
        self.ev(e="begin", o=str(o))

    def fresh(self):
        return [h for h in range(self.n0, shim("next")) if shim("alive", ctypes.c_long(h))] if SHIM else []

    # -- one history
    def run(self, beh, r):
        self.prec = 32
        self.case(w="life")
        if SHIM:
            shim("seed", r.getrandbits(60)); shim("policy", r.choice([1, 1, 1, 2, 0])); shim("workers", r.randint(1, 5))
        self.o, self.mem, self.hs, self.kind, self.ids = {}, {}, {}, {}, {}
        for e in beh["log"]:
            if SHIM and r.random() < 0.3: shim("run_some", r.randint(1, 4))
            self.attempt(e)
            getattr(self, "do_" + e["k"])(e, r)
        ends = list(self.o); r.shuffle(ends)
        for o in ends: self.do_drop(dict(o=o, w=r.choice(["del", "unregdel", "unreg"])), r)
        self.begin(); core.starpu.wait_for_all(); self.ev(e="end")
        if SHIM: self.ev(e="gone", n=int(shim("live")))

    def do_make(self, e, r):
        k, o, n = e["kind"], e["o"], e["n"]
        self.begin()
        mem = None
        if k in ("on", "tileon"):
            mem = np.array([r.randint(-16, 16) / 4 for _ in range(M + 2)], dtype=np.float32)
        if k == "var": x = L.g_handle(ctypes.c_long(4 * M), e["mode"])
        elif k == "on": x = L.g_on(P(mem.ctypes.data), ctypes.c_long(4 * M), e["mode"])
        elif k == "tile": x = L.g_tile(ctypes.c_long(M))
        elif k == "tileon": x = L.g_tile_on(P(mem.ctypes.data), ctypes.c_long(M), ctypes.c_long(M + 2))
        elif k == "tensor": x = L.g_tensor(ctypes.c_long(M * n), ctypes.c_long(M), ctypes.c_long(n))
        else:
            ti = M if n == e["w"] else M * e["w"]
            x = ct.Tensor_fp32(ct.TensorTraits([M * e["w"]], [ti]), [0] * n, self.tag)
            self.T["p%d" % o] = x
            self.meta["p%d" % o] = ([M * e["w"]], [ti], "f", 32)
        if not x: raise SystemExit(88)
        self.ids[o] = self.fresh()
        self.ev(e="made", o=str(o), n=n, hs=self.ids[o])
        self.o[o] = x; self.kind[o] = k; self.hs[o] = e["hs"]
        if k == "py": self.log(dict(k="new", t="p%d" % o, sh=self.meta["p%d" % o][0], ti=self.meta["p%d" % o][1], dt="f", p=32))
        for h in e["hs"] if k != "py" else []:
            self.log(dict(k="new", t="h%d" % h, sh=[M], ti=[M], dt="f", p=32))
            if mem is not None:
                self.mem[h] = (mem, e["mode"], mem[M:].copy())
                self.log(dict(k="set", t="h%d" % h, v=enc(mem[:M]), ex=True))

    def do_copy(self, e, r):
        self.begin()
        x = L.g_copy(P(self.o[e["from"]]))
        self.took(e, x, self.kind[e["from"]])

    def do_view(self, e, r):
        k = self.kind[e["from"]]
        self.begin()
        if k == "py":
            if len(self.hs[e["from"]]) > 1: return self.ev(e="end")   # which handle it shares is not visible
            x = self.o[e["from"]].get_tile(0)
            self.took(e, x, "pytile", self.ids[e["from"]])
        else:
            x = L.g_view(P(self.o[e["from"]]), ctypes.c_long(e["i"]))
            self.took(e, x, {"tensor": "tile", "tile": "handle", "tileon": "handle"}[k])

    def do_local(self, e, r):
        self.begin()
        mode = {"R": 0, "W": 1, "RW": 2}[e["m"]]
        i = e["i"]
        x = L.g_local(P(self.o[e["from"]]), ctypes.c_long(i), mode)
        rid = L.nid(self.o[e["from"]], i)
        if not x: raise SystemExit(88)
        p = np.ctypeslib.as_array(ctypes.cast(L.g_ptr(P(x)), ctypes.POINTER(ctypes.c_float)), (M,))
        h = "h%d" % e["hs"][0]
        if e["m"] != "W": self.log(dict(k="chk", t=h, v=enc(p)))
        if e["m"] != "R":
            v = [r.randint(-16, 16) / 4 for _ in range(M)]
            p[:] = v
            self.log(dict(k="set", t=h, v=enc(np.array(v)), ex=True))
        self.took(e, x, "local", [rid])

    def took(self, e, x, kind, ids=None):
        if not x: raise SystemExit(88)
        self.o[e["o"]] = x; self.kind[e["o"]] = kind; self.hs[e["o"]] = e["hs"]
        if SHIM:
            if ids is None: ids = [L.nid(x, i) for i in range(len(e["hs"]))]
            self.ev(e="shared", o=str(e["o"]), hs=ids)

    def do_release(self, e, r):
        self.begin()
        L.g_unreg(P(self.o[e["o"]]))
        self.kind[e["o"]] = "released"
        self.ev(e="end")

    def do_op(self, e, r):
        self.nops += 1
        f, a = e["f"], e["a"]
        x = [self.o[q[0]] for q in a]
        ix = [q[1] - 1 for q in a]
        hn = ["h%d" % self.hs[q[0]][q[1] - 1] for q in a]
        c = [r.choice([S, -S, S // 2, 2 * S]), r.choice([S, -S, S // 2, 0])]
        q = dict(op=f, x=hn[0])
        if f == "fill": q["alpha"] = c[0]
        if f == "scal_inplace": q["alpha"] = S // 2
        if f == "copy": q["y"] = hn[1]
        if f == "add": q.update(y=hn[1], alpha=S // 2, beta=S // 2)
        real = [F(q.get("alpha", 0)), F(q.get("beta", 0))]
        self.begin()
        rc = L.g_op(f.encode(), (P * len(x))(*x), la(ix), da(real), ctypes.c_long(M))
        self.ev(e="end")
        self.log(dict(k="op", a=q, res="err" if rc else "ok"))
        self.distinct.add(json.dumps([f, [self.kind[z[0]] for z in a]]))

    def do_pyop(self, e, r):
        f, o = e["f"], "p%d" % e["o"]
        p = "p%d" % e["p"]
        self.begin()
        self.nops += 1
        if f == "set": self.set(o, [r.randint(-16, 16) * (S // 4) for _ in range(self.meta[o][0][0])])
        elif f == "randn":
            ti = self.meta[o]
            nt.randn_async(self.T[o], [0], ti[0], r.randint(0, 1000), 0.0, 1.0)
            self.log(dict(k="new", t=o, sh=ti[0], ti=ti[1], dt="f", p=32))
        else:
            a = dict(op=f, x=o)
            if f == "fill": a["alpha"] = r.randint(-8, 8) * (S // 4)
            if f == "scal_inplace": a["alpha"] = S // 2
            if f in ("copy", "gather", "scatter"): a.update(x=p, y=o)
            if f == "inter": a.update(op="copy_intersection", x=p, y=o, xo=[r.randint(0, 6)], yo=[r.randint(0, 6)])
            if self.op(a) != "ok": pass
        self.ev(e="end")

    def do_read(self, e, r):
        self.begin()
        o = e["o"]
        if self.kind[o] == "py": self.chk("p%d" % o)
        else:
            b = np.zeros(M, dtype=np.float32)
            L.g_get(P(self.o[o]), ctypes.c_long(e["i"]), P(b.ctypes.data), ctypes.c_long(4 * M))
            self.log(dict(k="chk", t="h%d" % self.hs[o][e["i"]], v=enc(b)))
        self.ev(e="end")

    def do_wait(self, e, r):
        self.begin(); core.starpu.wait_for_all(); self.ev(e="end")

    def do_bad(self, e, r):
        self.begin()
        z = ctypes.c_long
        w = e["w"]
        x = {"mode": lambda: L.g_handle(z(16), r.choice([4, 5])), "zero": lambda: L.g_handle(z(0), r.randint(0, 3)),
             "size": lambda: L.g_tile_on(P(self.buf.ctypes.data), z(M), z(r.randint(0, M - 1))),
             "dist": lambda: L.g_tensor(z(2 * M), z(M), z(r.choice([0, 1, 3]))),
             "tile": lambda: L.g_tensor(z(2 * M), z(0), z(1))}[w]()
        if x: self.log(dict(k="bad", why="construction not refused: " + w))
        self.ev(e="end")

    buf = np.zeros(M, dtype=np.float32)

    def do_drop(self, e, r):
        o, w = e["o"], e["w"]
        if o not in self.o: return
        x = self.o.pop(o)
        k = self.kind[o]
        last = [h for h in self.hs[o] if not any(h in self.hs[p] for p in self.o)]
        self.begin(o)
        if k in ("py", "pytile"):
            if k == "py": self.T.pop("p%d" % o)
            if w != "del" and k == "py": x.unregister()
            del x
        elif k == "local": L.g_del(P(x))            # releases what it holds
        elif k == "released": L.g_del(P(x))
        else:
            if w != "del": L.g_unreg(P(x))
            if w == "unregdel" and r.random() < 0.3: L.g_unreg(P(x))     # again: nothing left to release
            if w == "unreg":
                # the object itself stays a little longer, without data
                self.ev(e="end"); self.begin()
            L.g_del(P(x))
        self.ev(e="end")
        for h in last:
            if h in self.mem:
                mem, mode, tail = self.mem.pop(h)
                if mode in (1, 2): self.log(dict(k="chk", t="h%d" % h, v=enc(mem[:M])))
                if not (mem[M:] == tail).all(): self.log(dict(k="bad", why="memory beyond the datum was written"))
            if k != "py": self.log(dict(k="del", t="h%d" % h))
        if k == "py": self.log(dict(k="del", t="p%d" % o))


def nid(x, i):
    return int(shim("hid", P(L.g_id(P(x), ctypes.c_long(i)))))


L.nid = nid
if SHIM:
    import nnv
    nnv._lib.nnv_next.restype = ctypes.c_long
    nnv._lib.nnv_hid.restype = ctypes.c_long

if __name__ == "__main__":
    beh, out, seed = sys.argv[1:4]
    rep = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    d = Life(out)
    for i, l in enumerate(open(beh)):
        b = json.loads(l)
        for k in range(rep): d.run(b, random.Random("%s/%d/%d" % (seed, i, k)))
    d.done()
    print(json.dumps(dict(cases=d.ncases, ops=d.nops, distinct=len(d.distinct))))
