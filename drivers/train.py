"""Optimizers, models, conversions and training: python train.py OUT SEED KINDS(comma) COUNT

opt    optimizers over many steps, with saving and loading at any point (C22, C23)
bits   saved states, bit by bit (C23)
model  models as compositions of layers (C26);  conv  conversion from and to reference models (C26)
train  the training pipeline (C24)"""
import contextlib, io, shutil, tempfile
from nets import *
from tokens import table
import nntile.optimizer as no, nntile.model as nm
from nntile.pipeline import Pipeline
from nntile.model.gpt2 import GPT2Config, GPT2MLP, GPT2Model
NPF = {32: np.float32, 64: np.float64}
HP = "it lr wd mom damp b1 b2 eps lr0 full".split()


class Model:
    """expected structure of a model: what its parameters are and what it computes"""
    def __init__(self):
        self.pars, self.hid, self.fwd, self.bwd = [], [], [], []
        self.n = 0
        self.data = {}

    def par(self, sh): self.pars.append(("p%d" % (len(self.pars) + 1), list(sh))); return self.pars[-1][0]
    def act(self, sh): self.n += 1; self.hid.append(("h%d" % self.n, list(sh))); return self.hid[-1][0]

    def step(self, f, b):
        self.fwd.append(f)
        self.bwd.insert(0, b)

    def gr(self, n): return "" if n in self.nograd else n + ".g"
    nograd = ()

    def linear(self, x, xs, osh, side="R", nd=1, bias=False, w=None):
        ws = (osh + xs[:nd]) if side == "R" else (xs[-nd:] + osh)
        ys = (osh + xs[nd:]) if side == "R" else (xs[:-nd] + osh)
        w = w or self.par(ws)
        b = self.par(osh) if bias else ""
        y = self.act(ys)
        f = dict(x=x, w=w, side=side, ta=False, nd=nd)
        self.step(dict(op="linear_fwd", b=b, y=y, **f), dict(op="linear_bwd", gy=y + ".g", gx=self.gr(x), gw=w + ".g", gb=b + ".g" if b else "", **f))
        return y, ys

    def unary(self, f, x, xs):
        y = self.act(xs)
        self.step(dict(op="act_fwd", f=f, x=x, y=y), dict(op="act_bwd", f=f, x=x, gy=y + ".g", gx=self.gr(x)))
        return y, xs

    def sum(self, x, x2, xs):
        y = self.act(xs)
        self.step(dict(op="sum_fwd", x=x, x2=x2, y=y), dict(op="sum_bwd", gy=y + ".g", gx=self.gr(x), gx2=self.gr(x2)))
        return y, xs

    def norm(self, x, xs, axis, eps):
        g, be = self.par([xs[axis]]), self.par([xs[axis]])
        y = self.act(xs)
        f = dict(x=x, g=g, axis=axis, eps=eps)
        self.step(dict(op="ln_fwd", be=be, y=y, **f), dict(op="ln_bwd", gy=y + ".g", gx=self.gr(x), gg=g + ".g", gbe=be + ".g", **f))
        return y, xs

    def mixer(self, x, xs, eps):
        # parameters: norm_1, mlp_1, norm_2, mlp_2
        n, _ = self.norm(x, xs, 2, eps)
        h, hs = self.linear(n, xs, [4 * xs[0]], "R"); h, hs = self.unary("gelu", h, hs); h, hs = self.linear(h, hs, [xs[0]], "R")
        z, _ = self.sum(x, h, xs)
        n, _ = self.norm(z, xs, 2, eps)
        h, hs = self.linear(n, xs, [4 * xs[2]], "L"); h, hs = self.unary("gelu", h, hs); h, hs = self.linear(h, hs, [xs[2]], "L")
        return self.sum(z, h, xs)

    def gap(self, x, xs):
        y = self.act([xs[2], xs[1]])
        self.step(dict(op="gap_fwd", x=x, y=y), dict(op="gap_bwd", x=x, gy=y + ".g", gx=self.gr(x)))
        return y, [xs[2], xs[1]]

    def embed(self, i, ish, voc, emb):
        w, y = self.par([emb, voc]), self.act([emb] + ish)
        self.step(dict(op="embed_fwd", i=i, w=w, y=y, axis=0), dict(op="embed_bwd", i=i, gy=y + ".g", gw=w + ".g", axis=0))
        return y, [emb] + ish

    def addslice(self, x, xs, x2, axis):
        y = self.act(xs)
        self.step(dict(op="addslice_fwd", x=x, x2=x2, y=y, axis=axis),
                  dict(op="addslice_bwd", x=x, gy=y + ".g", gx=self.gr(x), gx2=self.gr(x2), axis=axis))
        return y, xs

    def attention(self, x, xs, heads, mask):
        d = xs[0] // heads
        w = [self.par([heads, d, xs[0]]) for _ in range(3)]
        b = [self.par([d, heads]) for _ in range(3)]
        o, bo = self.par([xs[0], heads, d]), self.par([xs[0]])
        # (in the order of the parameters of the layer)
        y = self.act(xs)
        f = dict(xq=x, xk=x, xv=x, mask=mask, bq=b[0], bk=b[1], bv=b[2], bo=bo, wq=w[0], wk=w[1], wv=w[2], w=o)
        g = dict(gxq=self.gr(x), gxk=self.gr(x), gxv=self.gr(x), **{"g" + k: f[k] + ".g" for k in "bq bk bv bo wq wk wv w".split()})
        self.step(dict(op="mha_fwd", y=y, **f), dict(op="mha_bwd", gy=y + ".g", **f, **g))
        return y, xs


class Train(Nets):
    # -- what the specification knows of a model
    def know(self, M, model, extra=()):
        """log the tensors of a model"""
        for (n, sh), m in zip(M.pars, model.parameters):
            self.adopt(n, m.value, sh, m.value.basetile_shape)
            self.adopt(n + ".g", m.grad, sh, m.grad.basetile_shape)
        if len(M.pars) != len(model.parameters):
            self.log(dict(k="bad", why="%d parameters, expected %d" % (len(model.parameters), len(M.pars))))
        for n, sh in M.hid:
            if n != M.out: self.hidden(n, sh)
        a = model.activations[-1]
        self.adopt(M.out, a.value, M.osh, a.value.basetile_shape)
        self.adopt(M.out + ".g", a.grad, M.osh, a.grad.basetile_shape)
        M.agrads = [n + ".g" for n, _ in M.hid] + [n + ".g" for n in M.ins if n + ".g" in self.T]
        M.pgrads = [n + ".g" for n, _ in M.pars]

    def randomize(self, M, r, scale=6, names=None):
        for n, sh in M.pars:
            if names is None or n in names: self.set(n, g8(r, numel(sh), scale))

    def input(self, M, r, sh, ti, req):
        M.nograd = () if req else ("x",)
        c = Case()
        x = self.moments(c, "x", sh, ti, "yes" if req else "none")
        M.ins = ["x"]
        return x

    # -- models
    def m_deeprelu(self, r, classes=True):
        M = Model()
        nd = r.choice([1, 1, 2])
        side = "R" if classes else r.choice("LR")
        nb = r.randint(1, 2)
        sh = gens.shape(r, nd + nb, 1, 4, 16); ti = gens.tiling(r, sh)
        x = self.input(M, r, sh, ti, r.chance(0.5))
        n, hid, nc, bias = r.randint(2, 4), r.randint(1, 4), r.randint(1, 4), r.chance(0.5)
        model = nm.DeepReLU(x, side, nd, hid, r.randint(1, hid), n, nc, self.tag, bias=bias); self.tag = model.next_tag
        y, ys = M.linear("x", sh, [hid], side, nd, bias)
        y, ys = M.unary("relu", y, ys)
        for _ in range(1, n - 1):
            y, ys = M.linear(y, ys, [hid], side, 1, bias)
            y, ys = M.unary("relu", y, ys)
        M.out, M.osh = M.linear(y, ys, [nc], side, 1, bias)
        return M, model

    def m_deeplinear(self, r):
        M = Model()
        nd = 1
        side = r.choice("LR")
        sh = gens.shape(r, r.randint(2, 3), 1, 4, 16); ti = gens.tiling(r, sh)
        x = self.input(M, r, sh, ti, r.chance(0.5))
        n, hid = r.randint(2, 4), r.randint(1, 4)
        model = nm.DeepLinear(x, side, nd, hid, r.randint(1, hid), n, self.tag); self.tag = model.next_tag
        y, ys = M.linear("x", sh, [hid], side, nd, True)
        for _ in range(1, n - 1): y, ys = M.linear(y, ys, [hid], side, 1, True)
        M.out, M.osh = M.linear(y, ys, sh[-nd:] if side == "L" else sh[:nd], side, 1, True)
        return M, model

    def mixer_struct(self, M, sh, emb, layers, nc, eps):
        y, ys = M.linear("x", sh, [emb], "L")
        for _ in range(layers): y, ys = M.mixer(y, ys, eps)
        y, ys = M.gap(y, ys)
        M.out, M.osh = M.linear(y, ys, [nc], "R")

    def soften(self, model):
        """a larger constant than the default in normalizations: better conditioned"""
        for l in model.layers:
            for k in ("norm_1", "norm_2"):
                if hasattr(l, k): getattr(l, k).eps = 0.25

    def m_mixer(self, r):
        M = Model()
        sh = [r.randint(1, 2), r.randint(1, 3), r.randint(1, 3)]
        ti = [sh[0], r.randint(1, sh[1]), sh[2]]
        x = self.input(M, r, sh, ti, r.chance(0.5))
        emb, n, nc = r.randint(2, 3), r.choice([1, 1, 2]), r.randint(1, 3)
        model = nm.MlpMixer(x, emb, n, nc, self.tag); self.tag = model.next_tag
        self.soften(model)
        self.mixer_struct(M, sh, emb, n, nc, S // 16)
        M.scale = 4
        return M, model

    def gpt_struct(self, M, L, B, voc, E, inner, act, layers, heads, eps):
        y, ys = M.embed("x", [L, B], voc, E)
        y2, _ = M.embed("pos", [L], M.npos, E)
        y, ys = M.addslice(y, ys, y2, 2)
        for _ in range(layers):
            n, _ = M.norm(y, ys, 0, eps)
            a, _ = M.attention(n, ys, heads, "mask")
            y, _ = M.sum(y, a, ys)
            n, _ = M.norm(y, ys, 0, eps)
            h, hs = M.linear(n, ys, [inner], "R", 1, True); h, hs = M.unary(act, h, hs); h, hs = M.linear(h, hs, [E], "R", 1, True)
            y, _ = M.sum(y, h, ys)
        n, _ = M.norm(y, ys, 0, eps)
        M.out, M.osh = M.linear(n, ys, [voc], "R")

    def gpt_config(self, r):
        heads, d = r.randint(1, 2), r.randint(1, 2)
        E = heads * d
        tv = r.randint(1, E)
        te = min(tv * r.randint(1, 3), max(tv, E // tv * tv))
        ht = r.choice([h for h in range(1, heads + 1) if heads % h == 0])
        L = r.randint(1, 3)
        inner = r.randint(1, 4)
        act = r.choice(["gelu", "gelutanh", "relu"])
        npos = L + r.randint(0, 2)
        voc = r.randint(1, 5)
        return dict(vocab_size=voc, vocab_embed_dim_tile=tv, embed_dim=E, embed_dim_tile=te, max_position_embeddings=npos,
                    inner_dim=inner, inner_dim_tile=r.randint(1, inner), layer_norm_epsilon=0.25, num_hidden_layers=r.choice([1, 1, 2]),
                    n_head=heads, n_head_tile=ht, activation_function=act, flashattention=r.chance(0.5), use_redux=r.chance(0.4)), L, r.randint(1, 2)

    def causal(self, L, lt):
        self.log(dict(k="new", t="mask", sh=[L, L], ti=[lt, lt], dt="b", p=0))
        self.log(dict(k="set", t="mask", v=[int(i <= j) for j in range(L) for i in range(L)], ex=True))

    def m_gpt2(self, r):
        M = Model(); self.prec = 32
        cf, L, B = self.gpt_config(r)
        lt = r.choice([t for t in range(1, L + 1) if L % t == 0]); bt = r.choice([t for t in range(1, B + 1) if B % t == 0])
        x = self.new("x", [L, B], [lt, bt], "i"); pos = self.new("pos", [L], [lt], "i")
        model = GPT2Model(TM(x, None, False), TM(pos, None, False), GPT2Config(**cf), self.tag); self.tag = model.next_tag
        self.causal(L, lt)
        M.ins = ["x"]; M.nograd = ("x", "pos"); M.npos = cf["max_position_embeddings"]
        self.gpt_struct(M, L, B, cf["vocab_size"], cf["embed_dim"], cf["inner_dim"], cf["activation_function"], cf["num_hidden_layers"], cf["n_head"], S // 4)
        M.data = {"x": ("lab", cf["vocab_size"]), "pos": ("lab", M.npos)}
        M.scale = 4
        return M, model

    def m_gptmlp(self, r):
        M = Model()
        sh = gens.shape(r, r.randint(2, 3), 1, 4, 16); ti = gens.tiling(r, sh)
        x = self.input(M, r, sh, ti, r.chance(0.7))
        cf, _, _ = self.gpt_config(r)
        E = cf["embed_dim"]
        model = GPT2MLP(x, GPT2Config(**cf), self.tag); self.tag = model.next_tag
        h, hs = M.linear("x", sh, [cf["inner_dim"]], "R", 1, True); h, hs = M.unary(cf["activation_function"], h, hs)
        M.out, M.osh = M.linear(h, hs, [E], "R", 1, True)
        return M, model

    def puts(self, M, n, r, scale=6):
        st = M.data.get(n)
        sh = self.meta[n][0]
        self.set(n, gens.labels(r, numel(sh), st[1]) if st else g8(r, numel(sh), scale))

    def c_model(self, r, i):
        kind = r.choice(["deeprelu", "deeplinear", "mixer", "gpt2", "gpt2", "gptmlp"])
        self.case(id=i, kind=kind)
        M, model = self.m_deeprelu(r, False) if kind == "deeprelu" else getattr(self, "m_" + kind)(r)
        self.know(M, model)
        self.rounds(M, model, r)
        self.end(model, M)

    def rounds(self, M, model, r, given=False):
        sc = getattr(M, "scale", 6)
        self.distinct.add(json.dumps([M.fwd, [self.meta[n][:2] for n in self.meta if n in self.T]]))
        if not given: self.randomize(M, r, sc)
        for n in M.ins + (["pos"] if "pos" in self.T else []):
            if n != "pos" or not given: self.puts(M, n, r, sc)
        gs = [n for n in M.agrads if n in self.T]
        seq = lambda ops: dict(op="seq", ops=ops)
        for n in M.pgrads + gs: self.puts(M, n, r, sc)
        clear = [(dict(op="clear_all", ts=M.pgrads + M.agrads), model.clear_gradients),
                 (dict(op="clear_all", ts=M.agrads), model.clear_activations_grads)]
        for k in range(r.choice([1, 1, 2, 3])):
            if r.chance(0.3): self.puts(M, r.choice(M.ins), r, sc)
            if k and r.chance(0.3): self.randomize(M, r, sc, [r.choice(M.pars)[0]])
            if self.act_on(seq(M.fwd), model.forward_async) == "err": return
            if r.chance(0.6): self.chk(M.out)
            if r.chance(0.1) and self.act_on(seq(M.fwd), model.forward_async) == "err": return
            if r.chance(0.85):
                if r.chance(0.3): self.act_on(dict(op="clear_all", ts=M.pgrads), model.clear_parameters_grads)
                if self.act_on(*clear[0 if r.chance(0.5) else 1]) == "err": return
                if r.chance(0.3):
                    for n in M.pgrads + gs: self.chk(n)
                self.puts(M, M.out + ".g", r, sc)
                if self.act_on(seq(M.bwd), model.backward_async) == "err": return
                if r.chance(0.6):
                    for n in M.pgrads + gs: self.chk(n)
        for n in sorted(self.T): self.chk(n)

    def end(self, model, M=None, *more):
        model.unregister()
        mine = set()
        for m in model.parameters: mine |= {id(m.value), id(m.grad)}
        for m in model.activations: mine |= {id(m.value), id(m.grad)}
        for o in more: o.unregister()
        for n, t in list(self.T.items()):
            if id(t) not in mine: t.unregister()
        self.T = {}
        self.f.flush()
        if SHIM: self.log(dict(k="live", n=int(shim("live"))))
        if SHIM and shim("live"): shim("pending_all")

    # -- conversions
    def torch_pars(self, tm, q, r):
        """give the parameters of a reference model random values"""
        import torch
        out = []
        with torch.no_grad():
            for i, (name, p) in enumerate(tm.named_parameters()):
                v = [r.randint(-192, 192) * (S // 256) for _ in range(p.numel())]
                p.copy_(torch.tensor(dec(v), dtype=torch.float32).reshape(p.shape))
                n = "%s%d" % (q, i)
                sh = list(p.shape)[::-1]
                self.log(dict(k="new", t=n, sh=sh, ti=sh, dt="f", p=32))
                self.log(dict(k="set", t=n, v=v, ex=True))
                out.append((n, name, list(p.shape)))
        return out

    def torch_chk(self, tm, pars):
        for (n, name, sh), p in zip(pars, tm.parameters()):
            a = p.detach().cpu().numpy()
            if list(a.shape) != sh: self.log(dict(k="bad", why="%s has shape %s" % (name, a.shape)))
            else: self.log(dict(k="chk", t=n, v=enc(a.reshape(-1))))

    def maps(self, kind, M, pars, heads=0):
        """where the elements of the parameters of the model are in the arrays of the reference model"""
        L = []
        it = iter(M.pars)
        def add(t, off, *st):
            n, sh = next(it)
            L.append(dict(op="relayout", x=t, y=n, off=off, st=list(st)))
        for t, name, sh in pars:
            if kind == "gpt2" and "c_attn" in name:
                E = sh[0] if "weight" in name else sh[0] // 3
                d = E // heads
                for j in range(3):
                    if "weight" in name: add(t, j * E, d, 1, 3 * E)       # [head, d, e] = W[e, j*E + head*d + .]
                    else: add(t, j * E, 1, d)                             # [d, head] = b[j*E + head*d + .]
            elif kind == "gpt2" and "attn.c_proj.weight" in name: add(t, 0, 1, sh[1] * (sh[0] // heads), sh[1])
            elif len(sh) == 1: add(t, 0, 1)
            elif kind == "deeprelu" or "lm_head" in name or "classification" in name or "mlp_1" in name: add(t, 0, sh[1], 1)
            else: add(t, 0, 1, sh[1])
        return L

    def c_conv(self, r, i):
        import torch, torch.nn as nn
        torch.set_num_threads(1)
        kind = r.choice(["gpt2", "gpt2", "mixer", "mixer", "deeprelu", "gptmlp"])
        self.prec = 32
        self.case(id=i, kind="conv " + kind)
        M = Model(); M.nograd = ("x",); M.ins = ["x"]; M.scale = 4
        heads = 0
        if kind == "gpt2":
            from transformers import GPT2Config as HC, GPT2LMHeadModel
            cf, Ln, B = self.gpt_config(r)
            heads = cf["n_head"]
            mk = lambda: GPT2LMHeadModel(HC(vocab_size=cf["vocab_size"], n_positions=cf["max_position_embeddings"], n_embd=cf["embed_dim"], n_inner=cf["inner_dim"],
                                            n_layer=cf["num_hidden_layers"], n_head=heads))
            def untie(m):
                m.lm_head.weight = nn.Parameter(m.lm_head.weight.detach().clone()); return m
            tm, tm2 = untie(mk()), untie(mk())
            pars = self.torch_pars(tm, "t", r)
            lt = r.choice([t for t in range(1, Ln + 1) if Ln % t == 0]); bt = r.choice([t for t in range(1, B + 1) if B % t == 0])
            model, self.tag = GPT2Model.from_torch(tm, B, bt, Ln, lt, GPT2Config(**cf), self.tag)
            self.adopt("x", model.activations[0].value, [Ln, B], [lt, bt], "i"); self.adopt("pos", model.activations[1].value, [Ln], [lt], "i")
            self.log(dict(k="set", t="pos", v=list(range(Ln)), ex=True))
            self.causal(Ln, lt)
            M.npos = cf["max_position_embeddings"]; M.nograd = ("x", "pos")
            M.data = {"x": ("lab", cf["vocab_size"])}
            self.gpt_struct(M, Ln, B, cf["vocab_size"], cf["embed_dim"], cf["inner_dim"], cf["activation_function"], cf["num_hidden_layers"], heads, S // 4)
        elif kind == "mixer":
            from nntile.torch_models.mlp_mixer import MlpMixer
            ch, B, px, emb, n, nc = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3), r.randint(1, 3), r.choice([1, 1, 2]), r.randint(1, 3)
            mk = lambda: MlpMixer(ch, px, emb, n, nc)
            tm, tm2 = mk(), mk()
            pars = self.torch_pars(tm, "t", r)
            model, self.tag = nm.MlpMixer.from_torch(tm, B, nc, self.tag)
            self.soften(model)
            self.adopt("x", model.activations[0].value, [ch, B, px], [ch, B, px])
            self.mixer_struct(M, [ch, B, px], emb, n, nc, S // 16)
        elif kind == "deeprelu":
            B, inp, hid, n, nc, bias = r.randint(1, 3), r.randint(1, 4), r.randint(1, 4), r.randint(2, 4), r.randint(1, 4), r.chance(0.5)
            ds = [inp] + [hid] * (n - 1) + [nc]
            tm = nn.Sequential(*[nn.Linear(a, b, bias=bias) for a, b in zip(ds, ds[1:])]); tm2 = None
            pars = self.torch_pars(tm, "t", r)
            model, self.tag = nm.DeepReLU.from_torch(tm, B, nc, "relu", self.tag)
            self.adopt("x", model.activations[0].value, [inp, B], [inp, B])
            y, ys = M.linear("x", [inp, B], [hid], "R", 1, bias)
            for k in range(1, n):
                y, ys = M.unary("relu", y, ys)
                y, ys = M.linear(y, ys, [ds[k + 1]], "R", 1, bias)
            M.out, M.osh = y, ys
        else:
            from transformers import GPT2Config as HC
            from transformers.models.gpt2.modeling_gpt2 import GPT2MLP as TMLP
            cf, _, _ = self.gpt_config(r)
            E = cf["embed_dim"]
            sh = [E] + gens.shape(r, r.randint(1, 2), 1, 3, 6); ti = gens.tiling(r, sh); ti[0] = cf["embed_dim_tile"]
            tm = TMLP(cf["inner_dim"], HC(n_embd=E, n_head=cf["n_head"])); tm2 = None
            pars = self.torch_pars(tm, "t", r)
            x = self.moments(Case(), "x", sh, ti, "yes"); M.nograd = ()
            model, self.tag = GPT2MLP.from_torch(tm, x, GPT2Config(**cf), self.tag)
            h, hs = M.linear("x", sh, [cf["inner_dim"]], "R", 1, True); h, hs = M.unary(cf["activation_function"], h, hs)
            M.out, M.osh = M.linear(h, hs, [E], "R", 1, True)
        self.know(M, model)
        maps = self.maps(kind, M, pars, heads)
        self.nops += 1
        self.log(dict(k="op", a=dict(op="seq", ops=[dict(m, back=False) for m in maps]), res="ok"))
        for n, _ in M.pars: self.chk(n)
        self.torch_chk(tm, pars)
        given = "all"
        if tm2 is not None:
            if r.chance(0.5):
                for n, sh in M.pars:
                    if r.chance(0.5): self.set(n, [r.randint(-192, 192) * (S // 256) for _ in range(numel(sh))])
            pars2 = self.torch_pars(tm2, "s", r)
            self.act_on(dict(op="seq", ops=[dict(m, x="s" + m["x"][1:], back=True) for m in maps]), lambda: model.to_torch(tm2))
            self.torch_chk(tm2, pars2)
            for n, _ in M.pars: self.chk(n)
        self.rounds(M, model, r, "all")
        self.end(model, M)

    # -- optimizers
    def settings(self, r, kind, sure):
        h = dict.fromkeys(HP, 0)
        h["lr"] = r.choice([S // 4, S // 8, S // 16, S // 32])
        h["wd"] = r.choice([0, 0, S // 4, S // 16])
        if kind == "sgd":
            h["mom"] = r.choice([0, S // 2, S * 3 // 4])
            h["damp"] = r.choice([0, 0, S // 4])
        else:
            h["b1"] = r.choice([S // 2, S * 3 // 4, 58982]); h["b2"] = r.choice([S * 3 // 4, S * 7 // 8, 62259])
            h["eps"] = r.choice([S // 16, S // 4, S // 64]) if not sure or r.chance(0.5) else 0
            if sure: h["wd"] = 0                     # (with decay the sum of both terms may vanish)
            if h["wd"] and h["eps"] == S // 64: h["eps"] = S // 16
            if kind.startswith("fused") and r.chance(0.4):
                h["lr0"] = r.choice([S // 64, S // 2, 0]); h["full"] = r.choice([1, 2, 3, 5, 8])
        return h

    def make(self, r, kind, h, pars, name, ps, flags):
        """an optimizer of these settings; hidden state in name.*"""
        dt = NPF[self.prec]
        if kind == "sgd":
            o = no.SGD(pars, F(h["lr"]), self.tag, momentum=F(h["mom"]), nesterov=flags["nesterov"], weight_decay=F(h["wd"]), damping=F(h["damp"]), dtype=dt)
        elif kind == "adam":
            o = no.Adam(pars, F(h["lr"]), self.tag, beta1=F(h["b1"]), beta2=F(h["b2"]), amsgrad=flags["ams"], weight_decay=F(h["wd"]), eps=F(h["eps"]) or 1e-8, dtype=dt)
        else:
            k = {}
            if h["full"]: k = dict(start_lr=F(h["lr0"]), full_lr_iter=h["full"])
            o = (no.FusedAdam if kind == "fusedadam" else no.FusedAdamW)(pars, F(h["lr"]), self.tag, beta1=F(h["b1"]), beta2=F(h["b2"]),
                 weight_decay=F(h["wd"]), eps=F(h["eps"]) or 1e-8, dtype=dt, **k)
        self.tag = o.get_next_tag()
        self.log(dict(k="new", t=name + ".hp", sh=[len(HP)], ti=[len(HP)], dt="i", p=0))
        self.log(dict(k="set", t=name + ".hp", v=[h[k] for k in HP], ex=True))
        P = []
        for j, p in enumerate(ps):
            sh, ti = self.meta[p][:2]
            for q in "m", "v", "vm":
                self.log(dict(k="new", t="%s.%s%d" % (name, q, j), sh=sh, ti=ti, dt="f", p=self.prec))
            P.append(dict(p=p, g=p + ".g", **{q: "%s.%s%d" % (name, q, j) for q in ("m", "v", "vm")}))
        a = dict(op="opt_step", kind="sgd" if kind == "sgd" else "adam", hp=name + ".hp", ps=P, nesterov=flags["nesterov"], ams=flags["ams"], dec=kind == "fusedadamw")
        return o, a

    def state(self, name, n):
        return [name + ".hp"] + ["%s.%s%d" % (name, q, j) for j in range(n) for q in ("m", "v", "vm")]

    def c_opt(self, r, i):
        kind = r.choice(["sgd", "adam", "fusedadam", "fusedadamw"])
        self.case(id=i, kind=kind)
        flags = dict(nesterov=kind == "sgd" and r.chance(0.4), ams=kind == "adam" and r.chance(0.4))
        sure = r.chance(0.5)           # no gradient is ever close to zero
        savable = kind != "sgd"
        n = r.randint(1, 3)
        shapes = []
        long = r.chance(0.12)          # many steps; parameters are given anew now and then, the state is not
        if long: n = 1
        for j in range(n):
            sh = gens.shape(r, r.randint(1, 3), 1, 4, 4 if long else 12)
            shapes.append((sh, gens.tiling(r, sh)))
        dir = tempfile.mkdtemp(prefix="nnv")
        insts, files = [], []
        def fresh():
            q = "AB"[len(insts)]
            c = Case(); ms = [self.moments(c, "%s%d" % (q, j), sh, ti, "yes") for j, (sh, ti) in enumerate(shapes)]
            ps = ["%s%d" % (q, j) for j in range(n)]
            h = self.settings(r, kind, sure)
            if long and h["full"]: h["full"] = r.choice([8, 20, 33, 50])
            o, a = self.make(r, kind, h, ms, "o" + q, ps, flags)
            for p in ps: self.set(p, g8(r, numel(self.meta[p][0])))
            insts.append((q, o, a, ps, ms))
        def grads(ps):
            for p in ps:
                k = numel(self.meta[p][0])
                v = [(r.randint(1, 12) * r.choice([1, -1]) if sure or r.chance(0.9) else 0) * (S // 8) for _ in range(k)]
                self.set(p + ".g", v)
        fresh()
        steps = r.choice([30, 45, 70]) if long else r.choice([1, 2, 3, 5, 8, 12])
        for s in range(steps):
            q, o, a, ps, ms = I = r.choice(insts)
            grads(ps)
            if self.act_on(a, o.step) == "err": break
            if r.chance(0.5):
                for p in ps: self.chk(p)
                if long or r.chance(0.3):
                    p = r.choice(ps)
                    self.set(p, g8(r, numel(self.meta[p][0])))
            if savable and r.chance(0.05 if long else 0.35):
                f = "f%d" % len(files)
                kw = {}
                if kind != "adam" and r.chance(0.2): kw = dict(dtype="fp32")
                for t in self.state("o" + q, n):
                    m = t.endswith(".hp")
                    j = 0 if m else int(t[-1])
                    self.log(dict(k="new", t=f + t[2:], sh=[len(HP)] if m else shapes[j][0], ti=[len(HP)] if m else shapes[j][1], dt="i" if m else "f", p=0 if m else self.prec))
                if self.act_on(dict(op="snap", prs=[[t, f + t[2:]] for t in self.state("o" + q, n)]),
                               lambda: o.save_state(os.path.join(dir, f), **kw)) == "err": break
                files.append(f)
            if files and r.chance(0.05 if long else 0.4):
                if len(insts) < 2: fresh()
                q, o, a, ps, ms = r.choice(insts)
                f = r.choice(files)
                if self.act_on(dict(op="snap", prs=[[f + t[2:], t] for t in self.state("o" + q, n)]), lambda: o.load_state(os.path.join(dir, f))) == "err": break
        for q, o, a, ps, ms in insts:
            for p in ps: self.chk(p)
        shutil.rmtree(dir)
        for q, o, a, ps, ms in insts:
            o.unregister()
            for m in ms: m.unregister()
        self.T = {}
        self.f.flush()
        if SHIM: self.log(dict(k="live", n=int(shim("live"))))
        if SHIM and shim("live"): shim("pending_all")

    def c_bits(self, r, i):
        """a state saved and loaded is the same bit for bit"""
        kind = r.choice(["adam", "fusedadam", "fusedadamw"])
        self.case(id=i, kind="bits " + kind)
        w = {32: np.uint32, 64: np.uint64}[self.prec]
        tab = table("fp%d" % self.prec, r); pos = {v: j for j, v in enumerate(tab)}
        n = r.randint(1, 3)
        ams = kind == "adam" and r.chance(0.5)
        h = self.settings(r, kind, False)
        shapes = [gens.shape(r, r.randint(1, 3), 1, 4, 16) for _ in range(n)]
        insts = []
        for q in "AB":
            c = Case(); ms = [self.moments(c, "%s%d" % (q, j), sh, gens.tiling(r, sh), "yes") for j, sh in enumerate(shapes)]
            cl = dict(adam=no.Adam, fusedadam=no.FusedAdam, fusedadamw=no.FusedAdamW)[kind]
            o = cl(ms, F(h["lr"]), self.tag, dtype=NPF[self.prec], **(dict(amsgrad=ams) if kind == "adam" else {}))
            self.tag = o.get_next_tag()
            T = {}
            for j in range(n):
                for k, l in (("m", "first_moments"), ("v", "second_moments")) + ((("x", "max_second_moments"),) if ams else ()):
                    T["%s%d" % (k, j)] = getattr(o, l)[j]
            for t, x in T.items():
                self.log(dict(k="new", t="%s.%s" % (q, t), sh=x.shape, ti=x.basetile_shape, dt="i", p=0))
            insts.append((q, o, T, ms))
        def put(q, T):
            for t, x in T.items():
                v = [r.randrange(len(tab)) for _ in range(numel(x.shape))]
                x.from_array(np.array([tab[z] for z in v], dtype=w).reshape(x.shape or [1], order="F").view(NPF[self.prec]))
                self.log(dict(k="set", t="%s.%s" % (q, t), v=v, ex=True))
        def chk(q, T):
            for t, x in T.items():
                a = np.zeros(x.shape or [1], dtype=w, order="F")
                x.to_array(a.view(NPF[self.prec]))
                self.log(dict(k="chk", t="%s.%s" % (q, t), v=[pos.get(int(z), -7) for z in a.reshape(-1, order="F").tolist()]))
        for q, o, T, ms in insts: put(q, T)
        dir = tempfile.mkdtemp(prefix="nnv")
        for k in range(r.randint(1, 3)):
            (q, o, T, ms), (q2, o2, T2, _) = insts if r.chance(0.7) else insts[::-1]
            if r.chance(0.5): put(q, T)
            def go():
                o.save_state(os.path.join(dir, "f")); o2.load_state(os.path.join(dir, "f"))
            self.act_on(dict(op="snap", prs=[["%s.%s" % (q, t), "%s.%s" % (q2, t)] for t in T]), go)
            chk(q, T); chk(q2, T2)
        shutil.rmtree(dir)
        for q, o, T, ms in insts:
            o.unregister()
            for m in ms: m.unregister()
        self.T = {}
        self.f.flush()

    # -- training
    def c_train(self, r, i):
        kind = r.choice(["deeprelu", "deeprelu", "mixer", "gpt2"])
        self.case(id=i, kind=kind)
        M, model = getattr(self, "m_" + kind)(r)
        self.know(M, model)
        sc = getattr(M, "scale", 6)
        self.randomize(M, r, sc)
        if "pos" in self.T: self.puts(M, "pos", r)
        lsc = r.choice([S, S // 2, S // 4])
        out = model.activations[-1]
        if out.value.basetile_shape[0] != M.osh[0]: return self.end(model, M)
        loss, self.tag = CrossEntropy.generate_simple(out, self.tag, redux=r.chance(0.4), scale=lsc / S)
        self.adopt("t", loss.y, M.osh[1:], out.value.basetile_shape[1:], "i"); self.adopt("val", loss.val, [], [])
        xsh, xti, xdt, xp = self.meta["x"]
        data, X, Y = [], [], []
        for b in range(r.choice([1, 2, 2, 3])):
            data.append([]); X.append([]); Y.append([])
            for k in range(r.choice([1, 1, 2, 3])):
                nx, ny = "x%d.%d" % (b, k), "y%d.%d" % (b, k)
                X[-1].append(self.new(nx, xsh, xti, xdt, xp)); Y[-1].append(self.new(ny, M.osh[1:], out.value.basetile_shape[1:], "i"))
                if nx not in M.data and "x" in M.data: M.data[nx] = M.data["x"]
                M.data[ny] = ("lab", M.osh[0])
                self.puts(M, nx, r, sc); self.puts(M, ny, r)
                data[-1].append([nx, ny])
        epochs = r.choice([0, 1, 1, 2, 3])
        ok = r.choice(["sgd", "adam", "fusedadam", "fusedadamw", "empty"])
        if ok == "empty":
            o = no.Empty(model.parameters, self.tag); a = dict(op="seq", ops=[])
        else:
            h = self.settings(r, ok, False); h["lr"] = r.choice([S // 8, S // 16]); h["eps"] = S // 4; h["lr0"] = h["lr0"] // 8
            o, a = self.make(r, ok, h, model.parameters, "o", [n for n, _ in M.pars], dict(nesterov=ok == "sgd" and r.chance(0.3), ams=ok == "adam" and r.chance(0.3)))
        hist = ["l%d" % k for k in range(epochs * len(data))]
        for n in hist: self.log(dict(k="new", t=n, sh=[], ti=[], dt="f", p=32))
        pipe = Pipeline(X, Y, model, o, loss, epochs)
        gx = M.out + ".g"
        e = dict(op="train", data=data, epochs=epochs, x="x", y="t", fwd=M.fwd, bwd=M.bwd, step=a, agrads=M.agrads, pgrads=M.pgrads, val="val", hist=hist,
                 loss=dict(op="crossentropy", x=M.out, t="t", val="val", scale=lsc, gx=gx))
        self.distinct.add(json.dumps([e, xsh, xti]))
        for n in M.pgrads + M.agrads:
            if n in self.T and r.chance(0.3): self.puts(M, n, r)       # earlier content is of no importance
        def go():
            with contextlib.redirect_stdout(io.StringIO()): pipe.train_async()
        if self.act_on(e, go) == "ok":
            if len(pipe.loss_hist) != len(hist): self.log(dict(k="bad", why="%d losses recorded, expected %d" % (len(pipe.loss_hist), len(hist))))
            else:
                for n, v in zip(hist, pipe.loss_hist): self.log(dict(k="chk", t=n, v=enc(v)))
            for n in sorted(self.T):
                if epochs or n not in ("val", "x", "t", M.out) and not n.endswith(".g"): self.chk(n)
        loss.unregister() if hasattr(loss, "unregister") else None
        for n in ("t", "val"): self.T.pop(n)
        self.end(model, M, o)

    def run1(self, kind, r, i):
        self.prec = 64 if r.chance(0.3) else 32
        self.reseed(r)
        getattr(self, "c_" + kind)(r, i)


if __name__ == "__main__":
    out, seed, kinds, count = sys.argv[1:5]
    kinds = kinds.split(",")
    d = Train(out)
    r = gens.R("train/%s/%s" % (seed, kinds))
    for i in range(int(count)):
        d.run1(kinds[i % len(kinds)], gens.R(r.getrandbits(60)), i)
    d.done()
    print(json.dumps(dict(cases=d.ncases, ops=d.nops, distinct=len(d.distinct))))
