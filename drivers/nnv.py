"""Driver core: executes programs on NNTile and records their history.

A program is a sequence of steps (dictionaries); the recorded trace has the same
steps with the observed outcome filled in, one JSON object per line, in the
vocabulary of spec/NNTileTrace.tla.
"""
import ctypes, json, os, sys, math
import numpy as np
import nntile
from nntile import nntile_core as core
ct = core.tensor
nt = nntile.tensor

S = 65536
NAN, PINF, NINF, BIG = -2147483647, 2147483647, -2147483646, 2147483646

_lib = ctypes.CDLL(None)
SHIM = hasattr(_lib, "nnv_present")
if SHIM:
    for f in ("nnv_pending", "nnv_pending_all", "nnv_live", "nnv_executed", "nnv_undef", "nnv_dirty"):
        getattr(_lib, f).restype = ctypes.c_long
    _lib.nnv_seed.argtypes = [ctypes.c_uint64]
    _lib.nnv_log.argtypes = [ctypes.c_char_p]
    _lib.nnv_mark.argtypes = [ctypes.c_char_p]


def shim(name, *args):
    return getattr(_lib, "nnv_" + name)(*args) if SHIM else 0


def enc(x):
    """array -> list of fixed-point integers"""
    x = np.asarray(x, dtype=np.float64).reshape(-1, order="F")
    out = []
    for v in x.tolist():
        if v != v: out.append(NAN)
        elif v == math.inf: out.append(PINF)
        elif v == -math.inf: out.append(NINF)
        elif abs(v) >= 32766: out.append(BIG)
        else: out.append(int(math.floor(v * S + 0.5)))
    return out


def dec(l):
    out = np.empty(len(l), dtype=np.float64)
    for i, v in enumerate(l):
        out[i] = math.nan if v == NAN else math.inf if v == PINF else -math.inf if v == NINF else v / S
    return out


CLS = {("f", 32): ct.Tensor_fp32, ("f", 64): ct.Tensor_fp64, ("i", 0): ct.Tensor_int64,
       ("b", 0): ct.Tensor_bool, ("h", 0): ct.Tensor_fp16}
NP = {("f", 32): np.float32, ("f", 64): np.float64, ("i", 0): np.int64, ("b", 0): bool}


def numel(sh):
    n = 1
    for s in sh: n *= s
    return n


def ntiles(sh, ti):
    n = 1
    for s, t in zip(sh, ti): n *= (s + t - 1) // t
    return n


class Stop(Exception):
    pass


class Driver:
    def __init__(self, out, ncpu=None, prec=32):
        if ncpu is None: ncpu = int(os.environ.get("NNV_NCPU", "4"))
        self.f = open(out, "w")
        self.prec = prec
        self.T = {}
        self.meta = {}
        self.tag = 0
        self.nops = 0
        self.ncases = 0
        self.distinct = set()
        self.blocking = False
        self.config = core.starpu.Config(ncpu, 0, 0)
        core.starpu.init()

    # -- log
    def log(self, d):
        self.f.write(json.dumps(d, separators=(",", ":")) + "\n")

    def attempt(self, d):
        """write what is about to happen, so that a crash can be attributed"""
        self.f.write("#" + json.dumps(d, separators=(",", ":")) + "\n")
        self.f.flush()

    # -- steps
    def case(self, **info):
        for n in list(self.T): self.rm(n, log=False)
        self.ncases += 1
        if SHIM: _lib.nnv_mark(b"case %d" % self.ncases)
        self.log(dict(k="case", **info))

    def new(self, name, sh, ti, dt="f", prec=None):
        p = 0 if dt != "f" else (prec or self.prec)
        tr = ct.TensorTraits(list(sh), list(ti))
        t = CLS[(dt, p)](tr, [0] * ntiles(sh, ti), self.tag)
        self.tag = t.next_tag
        self.T[name] = t
        self.meta[name] = (list(sh), list(ti), dt, p)
        self.log(dict(k="new", t=name, sh=list(sh), ti=list(ti), dt=dt, p=p))
        return t

    def adopt(self, name, t, sh, ti, dt="f", prec=None):
        """track a tensor created by NNTile itself"""
        p = 0 if dt != "f" else (prec or self.prec)
        self.T[name] = t
        self.meta[name] = (list(sh), list(ti), dt, p)
        self.log(dict(k="new", t=name, sh=list(sh), ti=list(ti), dt=dt, p=p))

    def arr(self, name, vals):
        sh, ti, dt, p = self.meta[name]
        a = dec(vals) if dt == "f" else np.array(vals)
        return np.array(a, dtype=NP[(dt, p)]).reshape(sh if sh else [1], order="F")

    scale = 0      # real values of tensors are those of the specification times 2**scale

    def set(self, name, vals, ex=True):
        sh, ti, dt, p = self.meta[name]
        a = self.arr(name, vals)
        if self.scale and dt == "f": a = a * np.array(2.0 ** self.scale, dtype=a.dtype)
        self.T[name].from_array(np.asfortranarray(a))
        if dt == "b": vals = [1 if v else 0 for v in vals]
        self.log(dict(k="set", t=name, v=list(vals), ex=bool(ex)))

    def get(self, name):
        sh, ti, dt, p = self.meta[name]
        a = np.empty(sh if sh else [1], dtype=NP[(dt, p)], order="F")
        if dt == "b": a[...] = False
        self.T[name].to_array(a)
        return a

    def chk(self, name):
        sh, ti, dt, p = self.meta[name]
        shim("undef")
        a = self.get(name)
        u = shim("undef")
        if dt == "f": v = enc(a if not self.scale else np.ldexp(a.astype(np.float64), -self.scale))
        else: v = [int(x) for x in a.reshape(-1, order="F").tolist()]
        self.log(dict(k="chk", t=name, v=v))
        if SHIM: self.log(dict(k="und", t=name, n=int(u)))
        return a

    def rm(self, name, mode="sync", log=True):
        t = self.T.pop(name)
        if mode == "sync": t.unregister()
        del t
        if log: self.log(dict(k="del", t=name))

    def op(self, a, redux=0, blocking=None):
        self.nops += 1
        self.attempt(a)
        if SHIM: _lib.nnv_mark(a["op"].encode())
        if blocking is None: blocking = self.blocking
        try:
            if blocking: self.call_blocking(a, redux)
            else: OPS[a["op"]](self, a, redux)
            res = "ok"
        except (RuntimeError, ValueError, IndexError) as e:
            res = "err"
            self.err = e
        except TypeError as e:
            res = "terr"
            self.err = e
        self.log(dict(k="op", a=a, res=res))
        return res

    def call_blocking(self, a, redux):
        """the blocking variant: redirect the async entry points of the core"""
        with Redirect():
            OPS[a["op"]](self, a, redux)
        if shim("pending"):
            self.log(dict(k="bad", why="tasks pending after a blocking call"))

    def done(self):
        for n in list(self.T): self.rm(n, log=False)
        self.f.close()
        core.starpu.wait_for_all()


class _Redirect(object):
    def __getattr__(self, name):
        return getattr(ct, name.replace("_async_", "_"))


class Redirect:
    def __enter__(self):
        self.old = nt.core_tensor
        p = _Redirect()
        for c in ("Tensor_fp32", "Tensor_fp64", "Tensor_fp16", "Tensor_int64", "Tensor_bool"):
            setattr(p, c, getattr(ct, c))
        nt.core_tensor = p

    def __exit__(self, *x):
        nt.core_tensor = self.old


def F(v):
    return v / S if v not in (NAN, PINF, NINF) else {NAN: math.nan, PINF: math.inf, NINF: -math.inf}[v]


def tr(b):
    return nntile.trans if b else nntile.notrans


OPS = {
    "fill": lambda d, a, r: nt.fill_async(F(a["alpha"]), d.T[a["x"]]),
    "clear": lambda d, a, r: nt.clear_async(d.T[a["x"]]),
    "relu": lambda d, a, r: nt.relu_async(d.T[a["x"]]),
    "drelu": lambda d, a, r: nt.drelu_async(d.T[a["x"]]),
    "gelu": lambda d, a, r: nt.gelu_async(d.T[a["x"]]),
    "dgelu": lambda d, a, r: nt.dgelu_async(d.T[a["x"]]),
    "gelutanh_inplace": lambda d, a, r: nt.gelutanh_inplace_async(d.T[a["x"]]),
    "dgelutanh": lambda d, a, r: nt.dgelutanh_async(d.T[a["x"]]),
    "pow": lambda d, a, r: nt.pow_async(F(a["alpha"]), F(a["exp"]), d.T[a["x"]]),
    "sqrt_inplace": lambda d, a, r: nt.sqrt_inplace_async(d.T[a["x"]]),
    "scal_inplace": lambda d, a, r: nt.scal_inplace_async(F(a["alpha"]), d.T[a["x"]]),
    "add_scalar": lambda d, a, r: nt.add_scalar_async(F(a["alpha"]), F(a["beta"]), d.T[a["x"]]),
    "hypot_scalar_inverse": lambda d, a, r: nt.hypot_scalar_inverse_async(F(a["eps"]), F(a["alpha"]), d.T[a["x"]]),
    "add": lambda d, a, r: nt.add_async(F(a["alpha"]), d.T[a["x"]], F(a["beta"]), d.T[a["y"]]),
    "hypot": lambda d, a, r: nt.hypot_async(F(a["alpha"]), d.T[a["x"]], F(a["beta"]), d.T[a["y"]]),
    "scal": lambda d, a, r: nt.scal_async(F(a["alpha"]), d.T[a["x"]], d.T[a["y"]]),
    "prod": lambda d, a, r: nt.prod_async(d.T[a["x"]], d.T[a["y"]]),
    "maximum": lambda d, a, r: nt.maximum_async(d.T[a["x"]], d.T[a["y"]]),
    "sqrt": lambda d, a, r: nt.sqrt_async(d.T[a["x"]], d.T[a["y"]]),
    "gelutanh": lambda d, a, r: nt.gelutanh_async(d.T[a["x"]], d.T[a["y"]]),
    "relu_forward": lambda d, a, r: nt.relu_forward_async(d.T[a["x"]], d.T[a["y"]]),
    "copy": lambda d, a, r: nt.copy_async(d.T[a["x"]], d.T[a["y"]]),
    "gather": lambda d, a, r: nt.gather_async(d.T[a["x"]], d.T[a["y"]]),
    "scatter": lambda d, a, r: nt.scatter_async(d.T[a["x"]], d.T[a["y"]]),
    "axpy": lambda d, a, r: nt.axpy_async(F(a["alpha"]), d.T[a["x"]], d.T[a["y"]]),
    "axpy_t": lambda d, a, r: nt.axpy_async(d.T[a["a"]], d.T[a["x"]], d.T[a["y"]]),
    "relu_backward": lambda d, a, r: nt.relu_backward_async(d.T[a["x"]], d.T[a["dy"]], d.T[a["dx"]]),
    "gelu_backward": lambda d, a, r: nt.gelu_backward_async(d.T[a["x"]], d.T[a["dy"]], d.T[a["dx"]]),
    "gelutanh_backward": lambda d, a, r: nt.gelutanh_backward_async(d.T[a["x"]], d.T[a["dy"]], d.T[a["dx"]]),
    "addcdiv": lambda d, a, r: nt.addcdiv_async(F(a["alpha"]), F(a["eps"]), d.T[a["n"]], d.T[a["d"]], d.T[a["y"]]),
    "adam": lambda d, a, r: nt.fused_adam_step(d.T[a["p"]], d.T[a["g"]], d.T[a["m"]], d.T[a["v"]],
        F(a["lr"]), F(a["eps"]), F(a["b1"]), F(a["b2"]), F(a["wd"]), a["it"]),
    "adamw": lambda d, a, r: nt.fused_adamw_step(d.T[a["p"]], d.T[a["g"]], d.T[a["m"]], d.T[a["v"]],
        F(a["lr"]), F(a["eps"]), F(a["b1"]), F(a["b2"]), F(a["wd"]), a["it"]),
    "add_slice": lambda d, a, r: nt.add_slice_async(F(a["alpha"]), d.T[a["s"]], F(a["beta"]), d.T[a["y"]], a["axis"]),
    "add_slice3": lambda d, a, r: nt.add_slice3_async(F(a["alpha"]), d.T[a["s"]], F(a["beta"]), d.T[a["x"]], d.T[a["y"]], a["axis"]),
    "add_fiber": lambda d, a, r: nt.add_fiber_async(F(a["alpha"]), d.T[a["s"]], F(a["beta"]), d.T[a["y"]], a["axis"], a["batch"]),
    "prod_slice": lambda d, a, r: nt.prod_slice_async(d.T[a["s"]], F(a["alpha"]), d.T[a["y"]], a["axis"]),
    "prod_fiber": lambda d, a, r: nt.prod_fiber_async(d.T[a["s"]], F(a["alpha"]), d.T[a["y"]], a["axis"]),
    "prod_fiber3": lambda d, a, r: nt.prod_fiber3_async(d.T[a["s"]], F(a["alpha"]), d.T[a["x"]], d.T[a["y"]], a["axis"]),
    "sum_slice": lambda d, a, r: nt.sum_slice_async(F(a["alpha"]), d.T[a["x"]], F(a["beta"]), d.T[a["y"]], a["axis"], r),
    "norm_slice": lambda d, a, r: nt.norm_slice_async(F(a["alpha"]), d.T[a["x"]], F(a["beta"]), d.T[a["y"]], a["axis"], r),
    "sumprod_slice": lambda d, a, r: nt.sumprod_slice_async(F(a["alpha"]), d.T[a["x"]], d.T[a["x2"]], F(a["beta"]), d.T[a["y"]], a["axis"], r),
    "sum_fiber": lambda d, a, r: nt.sum_fiber_async(F(a["alpha"]), d.T[a["x"]], F(a["beta"]), d.T[a["y"]], a["axis"], a["batch"], r),
    "sumprod_fiber": lambda d, a, r: nt.sumprod_fiber_async(F(a["alpha"]), d.T[a["x"]], d.T[a["x2"]], F(a["beta"]), d.T[a["y"]], a["axis"], r),
    "sumnorm": lambda d, a, r: nt.sumnorm_async(d.T[a["x"]], d.T[a["y"]], a["axis"]),
    "maxsumexp": lambda d, a, r: nt.maxsumexp_async(d.T[a["x"]], d.T[a["y"]], a["axis"], r),
    "softmax": lambda d, a, r: nt.softmax_async(d.T[a["s"]], d.T[a["x"]], F(a["alpha"]), d.T[a["y"]], a["axis"]),
    "softmax_inplace": lambda d, a, r: nt.softmax_inplace_async(d.T[a["s"]], F(a["alpha"]), d.T[a["y"]], a["axis"]),
    "logsumexp": lambda d, a, r: nt.logsumexp_async(d.T[a["x"]], d.T[a["y"]]),
    "normalize": lambda d, a, r: nt.normalize_async(d.T[a["gb"]], d.T[a["s"]], d.T[a["y"]], a["l"], F(a["eps"]), a["axis"]),
    "nrm2": lambda d, a, r: nt.nrm2_async(F(a["alpha"]), d.T[a["x"]], F(a["beta"]), d.T[a["y"]], d.T[a["tmp"]]),
    "gemm": lambda d, a, r: nt.gemm_async(F(a["alpha"]), tr(a["ta"]), d.T[a["a"]], tr(a["tb"]), d.T[a["b"]],
        F(a["beta"]), d.T[a["c"]], a["ndim"], a["batch"], r),
    "transpose": lambda d, a, r: nt.transpose_async(F(a["alpha"]), d.T[a["x"]], d.T[a["y"]], a["ndim"]),
    "copy_intersection": lambda d, a, r: nt.copy_intersection_async(d.T[a["x"]], a["xo"], d.T[a["y"]], a["yo"]),
    "mask_scalar": lambda d, a, r: nt.mask_scalar_async(d.T[a["mask"]], F(a["alpha"]), d.T[a["y"]], a["batch"]),
    "embedding": lambda d, a, r: nt.embedding_async(d.T[a["i"]], d.T[a["v"]], d.T[a["e"]], a["axis"]),
    "embedding_backward": lambda d, a, r: nt.embedding_backward_async(d.T[a["i"]], d.T[a["e"]], d.T[a["v"]], a["axis"], r),
    "subtract_indexed_outputs": lambda d, a, r: nt.subtract_indexed_outputs_async(F(a["alpha"]), d.T[a["i"]], d.T[a["y"]]),
    "total_sum_accum": lambda d, a, r: nt.total_sum_accum_async(F(a["alpha"]), d.T[a["s"]], d.T[a["x"]], d.T[a["i"]], d.T[a["y"]]),
}
