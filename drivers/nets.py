"""Layers, losses and attention: python nets.py OUT SEED KINDS(comma) COUNT [mode]

Each case builds one layer (or loss) on random shapes and tilings and makes rounds of
forward and backward calls.  Every tensor with a defined content is compared with the
specification (Nets.tla), the ones that must not change included."""
import sys, json, gc
from nnv import *
import gens
from nntile.layer import *
from nntile.layer.add import Add
from nntile.layer.mixer import GAP, Mixer, MixerMlp
from nntile import model
from nntile.loss import CrossEntropy, Frob
TM = nt.TensorMoments
g8 = lambda r, n, m=12: [r.randint(-m, m) * (S // 8) for _ in range(n)]


class Case:
    """What a layer is called with"""
    def __init__(self):
        self.given = []          # values set by the program
        self.keep = []           # values set once (parameters of indices, masks)
        self.grads = []          # gradients that a backward call adds to
        self.other = []          # gradients that must be left alone
        self.gy = []             # gradients a backward call reads
        self.out, self.out2 = [], []
        self.fwd = self.bwd = None
        self.ff = self.bf = None
        self.again = False       # forward needed before each backward
        self.pre = None          # before each backward
        self.free = []
        self.data = {}
        self.scale = 12


    def plain(self):
        b = Case(); b.scale = self.scale
        return b


class Nets(Driver):
    def moments(self, c, name, sh, ti, req="any", r=None, style=None):
        """a value with its gradient, given by the program"""
        v = self.new(name, sh, ti)
        g = None
        if req == "any": req = r.choice(["yes", "yes", "yes", "no", "none"])
        if req != "none": g = self.new(name + ".g", sh, ti)
        m = TM(v, g, req == "yes")
        c.given.append(name); c.free.append(m)
        if req == "yes": c.grads.append(name + ".g")
        elif req == "no": c.other.append(name + ".g")
        if style: c.data[name] = style
        return m

    def taken(self, c, name, m, param=True):
        """a value with its gradient, made by the layer"""
        v = m.value
        self.adopt(name, v, v.shape, v.basetile_shape)
        self.adopt(name + ".g", m.grad, v.shape, v.basetile_shape)
        if param:
            c.given.append(name); c.grads.append(name + ".g")
        else:
            c.out.append(name); c.gy.append(name + ".g"); c.free.append(m)

    def G(self, m, name): return name + ".g" if m.grad_required else ""

    def hidden(self, name, sh, ti=None):
        self.log(dict(k="new", t=name, sh=list(sh), ti=list(ti or sh), dt="f", p=self.prec))
        self.log(dict(k="new", t=name + ".g", sh=list(sh), ti=list(ti or sh), dt="f", p=self.prec))

    def act_on(self, a, fn):
        self.nops += 1
        self.attempt(a)
        if SHIM: _mark(a["op"])
        try:
            fn(); res = "ok"
        except (RuntimeError, TypeError, ValueError, IndexError, AttributeError, NameError) as e:
            res = "err"; self.err = e
            if os.environ.get("NNV_TB"):
                import traceback; traceback.print_exc()
        self.log(dict(k="op", a=a, res=res))
        return res

    # -- layers
    def l_linear(self, r):
        c = Case()
        nd = r.randint(2, 3) if r.chance(0.8) else 4
        sh = gens.shape(r, nd, 1, 5, 60); ti = gens.tiling(r, sh)
        x = self.moments(c, "x", sh, ti, r=r)
        k = r.randint(1, nd - 1)
        osh = gens.shape(r, r.choice([1, 1, 2]), 1, 5, 12); ot = gens.tiling(r, osh)
        side, ta = r.choice("LR"), r.chance(0.5)
        l, self.tag = Linear.generate_simple(x, side, tr(ta), k, osh, ot, self.tag, bias=len(osh) == 1 and r.chance(0.7),
                                             redux=r.chance(0.4))
        self.taken(c, "w", l.w); self.taken(c, "y", l.y, False)
        if l.b: self.taken(c, "b", l.b)
        for m, n in ((l.w, "w"), (l.b, "b")):
            if m and r.chance(0.2):
                m.grad_required = False; c.grads.remove(n + ".g"); c.other.append(n + ".g")
        f = dict(x="x", w="w", side=side, ta=bool(ta), nd=k)
        c.fwd = dict(op="linear_fwd", b="b" if l.b else "", y="y", **f)
        c.bwd = dict(op="linear_bwd", gy="y.g", gx=self.G(x, "x"), gw=self.G(l.w, "w"), gb=self.G(l.b, "b") if l.b else "", **f)
        return c, l

    def l_act(self, r):
        c = Case()
        sh = gens.shape(r, r.randint(0, 4), 1, 5, 80)
        x = self.moments(c, "x", sh, gens.tiling(r, sh), r=r)
        f = r.choice(["relu", "gelu", "gelutanh"])
        l, self.tag = Act.generate_simple(x, f, self.tag)
        self.taken(c, "y", l.y, False)
        c.fwd = dict(op="act_fwd", f=f, x="x", y="y")
        c.bwd = dict(op="act_bwd", f=f, x="x", gy="y.g", gx=self.G(x, "x"))
        return c, l

    def l_add(self, r):
        c = Case()
        sh = gens.shape(r, r.randint(0, 4), 1, 5, 80); ti = gens.tiling(r, sh)
        x = self.moments(c, "x", sh, ti, r=r)
        y, n = (x, "x") if r.chance(0.15) else (self.moments(c, "x2", sh, ti, r=r), "x2")
        l, self.tag = Add.generate_simple(x, y, self.tag)
        self.taken(c, "y", l.res, False)
        c.fwd = dict(op="sum_fwd", x="x", x2=n, y="y")
        c.bwd = dict(op="sum_bwd", gy="y.g", gx=self.G(x, "x"), gx2=self.G(y, n))
        return c, l

    def l_addslice(self, r):
        c = Case()
        sh = gens.shape(r, r.randint(1, 4), 1, 5, 80); ti = gens.tiling(r, sh)
        ax = r.randrange(len(sh))
        x = self.moments(c, "x", sh, ti, r=r)
        y = self.moments(c, "x2", gens.slice_of(sh, ax), gens.slice_of(ti, ax), r=r)
        l, self.tag = AddSlice.generate_simple(x, y, ax, self.tag, redux=r.chance(0.4))
        self.taken(c, "y", l.u, False)
        c.fwd = dict(op="addslice_fwd", x="x", x2="x2", y="y", axis=ax)
        c.bwd = dict(op="addslice_bwd", x="x", gy="y.g", gx=self.G(x, "x"), gx2=self.G(y, "x2"), axis=ax)
        return c, l

    def l_embed(self, r):
        c = Case()
        sh = gens.shape(r, r.randint(0, 3), 1, 5, 20); ti = gens.tiling(r, sh)
        ax, voc = r.randint(0, len(sh)), r.randint(1, 7)
        emb = r.randint(1, 8)
        wt = r.randint(1, emb); yt = min(wt * r.randint(1, 3), max(wt, emb // wt * wt))
        i = self.new("i", sh, ti, "i"); c.keep.append("i"); c.data["i"] = ("lab", voc)
        c.free.append(i)
        l, self.tag = Embedding.generate_simple(i, CLS[("f", self.prec)], ax, voc, emb, yt, wt, self.tag)
        self.taken(c, "w", l.w); self.taken(c, "y", l.y, False)
        if r.chance(0.2):
            l.w.grad_required = False; c.grads.remove("w.g"); c.other.append("w.g")
        c.fwd = dict(op="embed_fwd", i="i", w="w", y="y", axis=ax)
        c.bwd = dict(op="embed_bwd", i="i", gy="y.g", gw=self.G(l.w, "w"), axis=ax)
        return c, l

    def l_gap(self, r):
        c = Case()
        sh = gens.shape(r, 3, 1, 5, 60)
        x = self.moments(c, "x", sh, gens.tiling(r, sh), r=r)
        l, self.tag = GAP.generate_simple(x, self.tag)
        self.taken(c, "y", l.y, False)
        c.fwd = dict(op="gap_fwd", x="x", y="y")
        c.bwd = dict(op="gap_bwd", x="x", gy="y.g", gx=self.G(x, "x"))
        return c, l

    def ln_fresh(self, g, b):
        """a new layer submits the initial parameters"""
        self.log(dict(k="op", a=dict(op="clear", x=b), res="ok"))
        self.log(dict(k="op", a=dict(op="fill", x=g, alpha=S), res="ok"))

    def l_ln(self, r):
        c = Case()
        sh = gens.shape(r, r.randint(1, 4), 1, 5, 80); ti = gens.tiling(r, sh)
        ax = r.randrange(len(sh))
        x = self.moments(c, "x", sh, ti, r=r)
        eps = r.choice([S // 16, S // 4, S // 8])
        l, self.tag = LayerNorm.generate_simple(x, ax, eps / S, self.tag, redux=r.chance(0.4))
        self.taken(c, "g", l.gamma); self.taken(c, "be", l.beta); self.taken(c, "y", l.y, False)
        self.ln_fresh("g", "be")
        for n in ("g", "be"):
            if r.chance(0.4): c.given.remove(n)         # keep the initial parameter
            m = l.gamma if n == "g" else l.beta
            if r.chance(0.2):
                m.grad_required = False; c.grads.remove(n + ".g"); c.other.append(n + ".g")
        c.again = True
        f = dict(x="x", g="g", axis=ax, eps=eps)
        c.fwd = dict(op="ln_fwd", be="be", y="y", **f)
        c.bwd = dict(op="ln_bwd", gy="y.g", gx=self.G(x, "x"), gg=self.G(l.gamma, "g"), gbe=self.G(l.beta, "be"), **f)
        return c, l

    def l_mixer(self, r):
        c = Case()
        sh = [r.randint(1, 3), r.randint(1, 3), r.randint(2, 3)]
        ti = [sh[0], r.randint(1, sh[1]), sh[2]]
        x = self.moments(c, "x", sh, ti, "yes")
        l, self.tag = Mixer.generate_simple(x, self.tag)
        for n, m in (("1", l.norm_1), ("2", l.norm_2)):
            m.eps = 0.25                                 # larger than the default
            self.taken(c, "g" + n, m.gamma); self.taken(c, "be" + n, m.beta)
            self.ln_fresh("g" + n, "be" + n)
        for n, m in (("1", l.mlp_1), ("2", l.mlp_2)):
            self.taken(c, "wa" + n, m.linear_1.w); self.taken(c, "wb" + n, m.linear_2.w)
        self.taken(c, "y", l.y, False)
        eps = S // 16
        for n in ("n1", "h1", "a1", "y1", "z1", "n2", "h2", "a2", "y2"):
            h = list(sh)
            if n in ("h1", "a1"): h[0] *= 4
            if n in ("h2", "a2"): h[2] *= 4
            self.hidden(n, h)
        ln = lambda x, n, y: [dict(op="ln_fwd", x=x, g="g" + n, be="be" + n, y=y, axis=2, eps=eps)]
        lnb = lambda x, n, y: [dict(op="ln_bwd", x=x, g="g" + n, gy=y + ".g", gx=x + ".g", gg="g%s.g" % n, gbe="be%s.g" % n, axis=2, eps=eps)]
        li = lambda x, w, y, s: [dict(op="linear_fwd", x=x, w=w, b="", y=y, side=s, ta=False, nd=1)]
        lib = lambda x, w, y, s: [dict(op="linear_bwd", x=x, w=w, gy=y + ".g", gx=x + ".g", gw=w + ".g", gb="", side=s, ta=False, nd=1)]
        ac = lambda x, y: [dict(op="act_fwd", f="gelu", x=x, y=y)]
        acb = lambda x, y: [dict(op="act_bwd", f="gelu", x=x, gy=y + ".g", gx=x + ".g")]
        su = lambda a, b, y: [dict(op="sum_fwd", x=a, x2=b, y=y)]
        sub = lambda a, b, y: [dict(op="sum_bwd", gy=y + ".g", gx=a + ".g", gx2=b + ".g")]
        mlp = lambda n, s: li("n" + n, "wa" + n, "h" + n, s) + ac("h" + n, "a" + n) + li("a" + n, "wb" + n, "y" + n, s)
        mlpb = lambda n, s: lib("a" + n, "wb" + n, "y" + n, s) + acb("h" + n, "a" + n) + lib("n" + n, "wa" + n, "h" + n, s)
        c.fwd = dict(op="seq", ops=ln("x", "1", "n1") + mlp("1", "R") + su("x", "y1", "z1")
                     + ln("z1", "2", "n2") + mlp("2", "L") + su("z1", "y2", "y"))
        hid = [n + ".g" for n in ("n1", "h1", "a1", "y1", "z1", "n2", "h2", "a2", "y2")]
        c.bwd = dict(op="seq", ops=[dict(op="clear_all", ts=hid)] + sub("z1", "y2", "y") + mlpb("2", "L") + lnb("z1", "2", "n2")
                     + sub("x", "y1", "z1") + mlpb("1", "R") + lnb("x", "1", "n1"))
        c.again = True
        c.pre = (dict(op="clear_all", ts=["x.g", "y.g"] + [p + ".g" for p in
                      ("g1", "be1", "wa1", "wb1", "g2", "be2", "wa2", "wb2")]), l.clear_gradients)
        c.scale = 6
        return c, l

    def l_mha(self, r, kind="mha"):
        c = Case()
        flash = kind == "flash"
        H, D, L, N = r.randint(1, 3), r.randint(1, 3), r.randint(1, 5), r.randint(1, 2)
        ht = r.choice([h for h in range(1, H + 1) if H % h == 0])
        if r.chance(0.05): N = 3
        if r.chance(0.04): L, N = r.randint(17, 36), 1       # a long sequence
        E = H * D
        # w_q[n_head_tile, head_size, emb_tile]; heads must be divisible
        xt = [r.randint(1, E), r.randint(max(1, L // 6), L), r.randint(1, N)]
        if flash:
            xt[1] = r.choice([t for t in range(1, L + 1) if L % t == 0 and t >= L // 6])
            xt[2] = r.choice([t for t in range(1, N + 1) if N % t == 0])
        xq = self.moments(c, "xq", [E, L, N], xt, "yes" if r.chance(0.8) else "no")
        if r.chance(0.3):
            xk, nk = xq, "xq"
        else:
            e = r.randint(1, 4)
            xk, nk = self.moments(c, "xk", [e, L, N], [r.randint(1, e), xt[1], xt[2]], "yes" if r.chance(0.8) else "no"), "xk"
        if r.chance(0.4): xv, nv = xk, nk
        else:
            e = r.randint(1, 4)
            xv, nv = self.moments(c, "xv", [e, L, N], [r.randint(1, e), xt[1], xt[2]], "yes" if r.chance(0.8) else "no"), "xv"
        mask = None
        if flash or r.chance(0.6):
            mask = self.new("mask", [L, L], [xt[1], xt[1]], "b"); c.keep.append("mask"); c.free.append(mask)
            causal = r.chance(0.5)
            own = [r.randrange(L) for _ in range(L)]
            c.data["mask"] = ("val", [int((i <= j) if causal else (i == own[j] or r.chance(0.5))) for j in range(L) for i in range(L)])
        bias = r.chance(0.6)
        Cl = FlashAttention if flash else Attention
        l, self.tag = Cl.generate_simple(xq, xk, xv, H, ht, self.tag, bias=bias, mask=mask, redux=r.chance(0.4))
        P = [("wq", l.w_q), ("wk", l.w_k), ("wv", l.w_v), ("w", l.w)]
        if bias: P += [("bq", l.in_proj_bias_q), ("bk", l.in_proj_bias_k), ("bv", l.in_proj_bias_v), ("bo", l.out_proj_bias)]
        c.scale = 6
        f, g = dict(xq="xq", xk=nk, xv=nv, mask="mask" if mask else "", bq="", bk="", bv="", bo=""), dict(gbq="", gbk="", gbv="", gbo="")
        for n, m in P:
            self.taken(c, n, m); f[n] = n
            if r.chance(0.1):
                m.grad_required = False; c.grads.remove(n + ".g"); c.other.append(n + ".g")
            g["g" + n] = self.G(m, n)
        self.taken(c, "y", l.y, False)
        for k, m, n in (("gxq", xq, "xq"), ("gxk", xk, nk), ("gxv", xv, nv)): g[k] = self.G(m, n)
        c.fwd = dict(op="mha_fwd", y="y", **f)
        c.bwd = dict(op="mha_bwd", gy="y.g", **f, **g)
        c.again = True
        return c, l

    def l_flash(self, r): return self.l_mha(r, "flash")

    def l_flashops(self, r):
        """the fused operations called directly"""
        c = Case()
        D, L, N, H = r.randint(1, 4), r.randint(1, 6), r.randint(1, 2), r.randint(1, 2)
        lt = r.choice([t for t in range(1, L + 1) if L % t == 0])
        sh, ti = [D, L, N, H], [D, lt, r.choice([1, N]), r.choice([1, H])]
        t = {}
        def mk(n, s, q, dt="f"): t[n] = self.new(n, s, q, dt); c.free.append(t[n])
        for n in "qkv": mk(n, sh, ti)
        for n in ("o", "go", "gq", "gk", "gv"): mk(n, sh, ti)
        mk("mask", [L, L], [lt, lt], "b"); mk("ms", [2] + sh[1:], [2] + ti[1:])
        tmp = [self.new(n, [L] + sh[1:], [lt] + ti[1:]) for n in ("tmp", "tmpg")]
        ssl = self.new("ssl", sh[1:], ti[1:])
        c.free += tmp + [ssl]
        c.keep = ["mask"]
        own = [r.randrange(L) for _ in range(L)]
        c.data["mask"] = ("val", [int(i == own[j] or r.chance(0.5)) for j in range(L) for i in range(L)])
        c.given = ["q", "k", "v"]; c.gy = ["go"]; c.out = ["ms", "o"]; c.out2 = ["gq", "gk", "gv"]
        red = 0
        if r.chance(0.4):
            red = 1
            t["ms"].set_reduction_maxsumexp()
            for n in ("o", "gq", "gk", "gv"): t[n].set_reduction_add()
            ssl.set_reduction_add()
        f = dict(q="q", k="k", mask="mask")
        c.fwd = dict(op="seq", ops=[dict(op="clear", x="ms"), dict(op="flash_maxsumexp", y="ms", **f),
                                    dict(op="flash_softmax_gemm", v="v", s="ms", y="o", **f)])
        c.bwd = dict(op="flash_backward", v="v", s="ms", gy="go", gq="gq", gk="gk", gv="gv", **f)
        class Fl: pass
        l = Fl()
        def fw():
            nt.clear_async(t["ms"])
            nt.flash_maxsumexp_async(t["q"], t["k"], t["mask"], t["ms"], tmp[0], red)
            nt.flash_softmax_gemm_async(t["q"], t["k"], t["v"], t["mask"], t["ms"], t["o"], tmp[0], red)
        def bw():
            nt.clear_async(ssl)
            nt.flash_softmax_gemm_backward_async(t["q"], t["gq"], t["k"], t["gk"], t["v"], t["gv"], t["mask"], t["ms"], t["go"],
                                                 tmp[0], tmp[1], ssl, red)
        l.forward_async, l.backward_async, l.unregister = fw, bw, lambda: None
        c.again = True
        return c, l

    def l_mlp(self, r):
        c = Case()
        side = r.choice("LR")
        sh = gens.shape(r, r.randint(2, 3), 1, 3, 16); ti = gens.tiling(r, sh, over=False)
        k = 0 if side == "R" else -1
        ti[k] = sh[k]
        x = self.moments(c, "x", sh, ti, r=r)
        l, self.tag = MixerMlp.generate_simple(x, side, self.tag)
        self.taken(c, "wa", l.linear_1.w); self.taken(c, "wb", l.linear_2.w); self.taken(c, "y", l.y, False)
        h = list(sh); h[k] *= 4
        self.hidden("h", h); self.hidden("a", h)
        f, g = dict(side=side, ta=False, nd=1), self.G(x, "x")
        c.fwd = dict(op="seq", ops=[dict(op="linear_fwd", x="x", w="wa", b="", y="h", **f), dict(op="act_fwd", f="gelu", x="h", y="a"),
                                    dict(op="linear_fwd", x="a", w="wb", b="", y="y", **f)])
        c.bwd = dict(op="seq", ops=[dict(op="clear_all", ts=["h.g", "a.g"]), dict(op="linear_bwd", x="a", w="wb", gy="y.g", gx="a.g", gw="wb.g", gb="", **f),
                                    dict(op="act_bwd", f="gelu", x="h", gy="a.g", gx="h.g"),
                                    dict(op="linear_bwd", x="x", w="wa", gy="h.g", gx=g, gw="wa.g", gb="", **f)])
        c.pre = (dict(op="clear_all", ts=([g] if g else []) + ["y.g", "wa.g", "wb.g"]), l.clear_gradients)
        c.again = True
        c.scale = 6
        return c, l

    # -- losses
    def l_frob(self, r):
        c = Case()
        sh = gens.shape(r, r.randint(0, 4), 1, 5, 80); ti = gens.tiling(r, sh)
        x = self.moments(c, "x", sh, ti, "yes")
        c.grads = []
        l, self.tag = Frob.generate_simple(x, self.tag)
        self.adopt("t", l.y, sh, ti); self.adopt("val", l.val, [], [])
        c.given.append("t"); c.out = ["x.g", "val"]
        c.fwd = dict(op="frob", x="x", t="t", gx="x.g", val="val")
        l.forward_async = l.calc_async
        return c, l

    def l_crossentropy(self, r):
        c = Case()
        sh = gens.shape(r, r.randint(1, 3), 1, 6, 60); ti = gens.tiling(r, sh)
        ti[0] = sh[0]                # required by the loss
        x = self.moments(c, "x", sh, ti, r.choice(["yes", "yes", "no", "none"]), style="real")
        c.grads = []
        sc = r.choice([S, S, S // 2, S // 4])
        l, self.tag = CrossEntropy.generate_simple(x, self.tag, redux=r.chance(0.4), scale=sc / S)
        self.adopt("t", l.y, sh[1:], ti[1:], "i"); self.adopt("val", l.val, [], [])
        c.given.append("t"); c.data["t"] = ("lab", sh[0])
        c.grads = ["val"]
        c.out = [self.G(x, "x")] if x.grad_required else []
        c.fwd = dict(op="crossentropy", x="x", t="t", val="val", scale=sc, gx=self.G(x, "x"))
        l.forward_async = l.calc_async
        return c, l

    # -- construction: refused or accepted, never an effect on what exists
    def build(self, r, i):
        side = r.choice(["L", "R", "L", "R", "l", "X", "", "LR"])
        nd = r.choice([1, 1, 2, 2, 0, -1])
        cls = r.choice(["linear", "act", "mixermlp", "embedding", "attention", "flash", "deeplinear", "deeprelu", "mlpmixer"])
        sh = gens.shape(r, 3, 1, 4, 24); ti = gens.tiling(r, sh)
        if cls in ("mixermlp", "mlpmixer"):
            ti = list(sh)
            if r.chance(0.3): ti[1] = max(1, sh[1] // 2)
        M = {}
        def mom(n, sh, ti):
            v, g = self.new(n, sh, ti), self.new(n + ".g", sh, ti)
            M[n] = TM(v, g, r.chance(0.8))
            self.set(n, g8(r, numel(sh))); self.set(n + ".g", g8(r, numel(sh)))
            return M[n]
        x = None
        if cls == "embedding":
            x = self.new("i", sh[:2], ti[:2], "i"); self.set("i", gens.labels(r, numel(sh[:2]), 5))
            wt, yt = r.randint(1, 4), r.randint(1, 6)
            a = dict(ytile=yt, wtile=wt)
            f = lambda: Embedding.generate_simple(x, CLS[("f", self.prec)], r.randint(0, 2), 5, 6, yt, wt, self.tag)
        elif cls in ("attention", "flash"):
            E, L, N = r.randint(1, 6), r.randint(1, 4), r.randint(1, 3)
            xt = [r.randint(1, E), r.randint(1, L), r.randint(1, N)]
            mom("q", [E, L, N], xt)
            for n in "kv":
                d, t = [r.randint(1, 4), L, N], [1, xt[1], xt[2]]
                if r.chance(0.25):
                    z = r.randint(1, 2); d[z] += 1
                if r.chance(0.25):
                    z = r.randint(1, 2)
                    if d[z] > 1: t[z] = t[z] % d[z] + 1
                mom(n, d, t)
            h = r.randint(1, 3)
            mask = None
            if cls == "flash":
                mask = self.new("mask", [L, L], [xt[1], xt[1]], "b"); self.set("mask", [1] * (L * L)); x = mask
            ks, vs = r.choice(["k", "k", "q"]), r.choice(["v", "v", "k", "q"])
            bias, redux = r.chance(0.5), r.chance(0.5)
            C = FlashAttention if cls == "flash" else Attention
            a = dict(q="q", ks=ks, vs=vs, heads=h)
            f = lambda: C.generate_simple(M["q"], M[ks], M[vs], h, 1, self.tag, bias=bias, mask=mask, redux=redux)
        else:
            m = mom("x", sh, ti)
            if cls == "linear":
                add = gens.shape(r, r.choice([1, 1, 2]), 1, 3, 8); bias = r.chance(0.5); ta = r.chance(0.3)
                a = dict(side=side, nd=nd, bias=bias, add=add)
                f = lambda: Linear.generate_simple(m, side, tr(ta), nd, add, add, self.tag, bias=bias)
            elif cls == "act":
                fn = r.choice(["relu", "gelu", "gelutanh", "Relu", "sigmoid", "", "tanh", "silu"])
                a = dict(f=fn); f = lambda: Act.generate_simple(m, fn, self.tag)
            elif cls == "mixermlp":
                a = dict(side=side); f = lambda: MixerMlp.generate_simple(m, side, self.tag)
            elif cls == "mlpmixer":
                k = r.choice([-1, 0, 0, 1, 2]); a = dict(layers=k); f = lambda: model.MlpMixer(m, 3, k, 2, self.tag)
            else:
                k = r.choice([0, 1, 1, 2, 3]); a = dict(side=side, nd=nd, layers=k)
                if cls == "deeplinear": f = lambda: model.DeepLinear(m, side, nd, 3, 2, k, self.tag)
                else: f = lambda: model.DeepReLU(m, side, nd, 3, 2, k, 2, self.tag)
        self.distinct.add(json.dumps([cls, a]))
        L0 = []
        l = None
        if self.act_on(dict(op="build", cls=cls, **a), lambda: L0.append(f())) == "ok":
            o = L0[0]
            l, self.tag = o if isinstance(o, tuple) else (o, o.next_tag)
            if isinstance(o, tuple):
                for y in l.activations_output: y.unregister()
        for n in sorted(self.T): self.chk(n)
        del f
        if l: l.unregister()
        for z in list(M.values()) + ([x] if x is not None else []): z.unregister()
        self.err = None
        gc.collect()
        self.f.flush()
        if SHIM: self.log(dict(k="live", n=int(shim("live"))))
        self.T = {}
        if SHIM and shim("live"): shim("pending_all")

    # -- rounds of calls
    def put(self, c, n, r):
        sh = self.meta[n][0]
        st = c.data.get(n)
        if st is None: v = g8(r, numel(sh), c.scale)
        elif st == "real": v = [r.randint(-4096, 4096) * (S // 1024) for _ in range(numel(sh))]
        elif st[0] == "lab": v = gens.labels(r, numel(sh), st[1])
        else: v = st[1]
        self.set(n, v)

    def reseed(self, r):
        if SHIM:
            shim("seed", r.getrandbits(60)); shim("policy", r.choice([1, 1, 1, 0, 2])); shim("workers", r.randint(1, 5))

    def case1(self, kind, r, i):
        self.prec = 64 if r.chance(0.3) else 32
        self.reseed(r)
        self.case(id=i, kind=kind)
        if kind == "build": return self.build(r, i)
        if kind not in ("mlp", "mixer", "mha", "flash", "flashops") and r.chance(0.04): r.big = "once"
        c, l = getattr(self, "l_" + kind)(r)
        r.big = False
        self.distinct.add(json.dumps([c.fwd, [self.meta[n][:2] for n in self.meta if n in self.T]]))
        for n in c.keep + c.given + c.other: self.put(c, n, r)
        for n in c.grads:
            if r.chance(0.2): self.set(n, [0] * numel(self.meta[n][0]))
            else: self.put(c.plain(), n, r)
        if r.chance(0.3):
            for n in c.out:       # earlier content of the outputs is of no importance
                if self.meta[n][2] == "f": self.set(n, [NAN] * numel(self.meta[n][0]))
        defined = set(c.keep + c.given + c.other + c.grads)
        rounds = r.choice([1, 2, 2, 3])
        look = r.chance(0.6)
        for k in range(rounds):
            if k:
                for n in c.given:
                    if r.chance(0.3): self.put(c, n, r)
            if k == 0 or c.again or r.chance(0.7):
                if self.act_on(c.fwd, l.forward_async) == "err": return self.drop(c, l)
                if r.chance(0.1) and self.act_on(c.fwd, l.forward_async) == "err": return self.drop(c, l)
            defined |= set(c.out)
            if look:
                for n in sorted(defined): self.chk(n)
            if c.bwd and r.chance(0.9):
                for z in range(1 if c.again else r.choice([1, 1, 2])):
                    if c.pre: self.act_on(c.pre[0], c.pre[1])
                    for n in c.gy: self.put(c.plain(), n, r)
                    if c.pre:
                        for n in c.grads:
                            if r.chance(0.5): self.put(c.plain(), n, r)
                    defined |= set(c.gy)
                    if self.act_on(c.bwd, l.backward_async) == "err": return self.drop(c, l)
                    defined |= set(c.out2)
                if look:
                    for n in sorted(defined): self.chk(n)
        for n in sorted(defined): self.chk(n)
        self.drop(c, l)

    def drop(self, c, l):
        l.unregister()
        for m in c.free: m.unregister()
        self.f.flush()
        # the references are still held: what the layer does not release itself is counted
        if SHIM: self.log(dict(k="live", n=int(shim("live"))))
        self.T = {}
        if SHIM and shim("live"): shim("pending_all")


def _mark(s):
    from nnv import _lib
    _lib.nnv_mark(s.encode())


if __name__ == "__main__":
    out, seed, kinds, count = sys.argv[1:5]
    kinds = kinds.split(",")
    d = Nets(out)
    r = gens.R("nets/%s/%s" % (seed, kinds))
    for i in range(int(count)):
        d.case1(kinds[i % len(kinds)], gens.R(r.getrandbits(60)), i)
    d.done()
    print(json.dumps(dict(cases=d.ncases, ops=d.nops, distinct=len(d.distinct))))
