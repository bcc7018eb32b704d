"""The C++ interface: tiles, tensors of every element type, handles, traits."""
import ctypes, os
from nnv import *

B = os.path.dirname(os.path.dirname(os.path.abspath(nntile.__file__))) + "/.."
L = ctypes.CDLL(os.path.join(os.path.normpath(B), "tiledrv.so"))
for f in ("t_new", "t_on", "n_new", "n_tile", "n_tile_at", "n_copy", "g_handle", "g_on", "g_tile", "g_tile_on", "g_tensor",
          "g_copy", "g_view", "g_local", "g_ptr", "g_id"):
    getattr(L, f).restype = ctypes.c_void_p
for f in ("d_last", "n_tile_shape", "tr_all", "tr_wide", "tr_ask", "d_cyclic"): getattr(L, f).restype = ctypes.c_char_p
L.n_ntiles.restype = ctypes.c_long
P = ctypes.c_void_p
DT = {("f", 32): 0, ("f", 64): 1, ("i", 0): 2, ("b", 0): 3, ("f", 16): 4}


def la(l):
    return (ctypes.c_long * max(1, len(l)))(*l)


def da(l):
    return (ctypes.c_double * max(1, len(l)))(*l)


def t_new(dt, sh):
    return L.t_new(dt, ctypes.c_long(len(sh)), la(sh))


def n_new(dt, sh, ti):
    return L.n_new(dt, ctypes.c_long(len(sh)), la(sh), ctypes.c_long(len(ti)), la(ti))


# request -> (operands, reals, integers)
ARGS = {
    "fill": ("x", "alpha", ""), "clear": ("x", "", ""), "relu": ("x", "", ""), "drelu": ("x", "", ""), "gelu": ("x", "", ""),
    "dgelu": ("x", "", ""), "gelutanh_inplace": ("x", "", ""), "dgelutanh": ("x", "", ""), "pow": ("x", "alpha exp", ""),
    "sqrt_inplace": ("x", "", ""), "scal_inplace": ("x", "alpha", ""), "add_scalar": ("x", "alpha beta", ""),
    "add": ("x y", "alpha beta", ""), "hypot": ("x y", "alpha beta", ""), "scal": ("x y", "alpha", ""), "prod": ("x y", "", ""),
    "maximum": ("x y", "", ""), "sqrt": ("x y", "", ""), "gelutanh": ("x y", "", ""), "relu_forward": ("x y", "", ""),
    "axpy": ("x y", "alpha", ""), "axpy_t": ("a x y", "", ""),
    "relu_backward": ("x dy dx", "", ""), "gelu_backward": ("x dy dx", "", ""), "gelutanh_backward": ("x dy dx", "", ""),
    "addcdiv": ("n d y", "alpha eps", ""), "adam": ("g m v p", "b1 b2 eps lr wd", "it"), "adamw": ("g m v p", "b1 b2 eps lr wd", "it"),
    "add_slice": ("s y", "alpha beta", "axis"), "add_slice3": ("s x y", "alpha beta", "axis"), "add_fiber": ("s y", "alpha beta", "axis batch"),
    "prod_slice": ("s y", "alpha", "axis"), "prod_fiber": ("s y", "alpha", "axis"), "prod_fiber3": ("s x y", "alpha", "axis"),
    "sum_slice": ("x y", "alpha beta", "axis"), "norm_slice": ("x y", "alpha beta", "axis"), "sumprod_slice": ("x x2 y", "alpha beta", "axis"),
    "sum_fiber": ("x y", "alpha beta", "axis batch"), "sumprod_fiber": ("x x2 y", "alpha beta", "axis"), "sumnorm": ("x y", "", "axis"),
    "maxsumexp": ("x y", "", "axis"), "softmax": ("s x y", "alpha", "axis"), "softmax_inplace": ("s y", "alpha", "axis"),
    "logsumexp": ("x y", "", ""), "normalize": ("gb s y", "eps", "l axis"), "nrm2_tile": ("x y tmp", "alpha beta", ""),
    "mask_scalar": ("mask y", "alpha", ""), "subtract_indexed_outputs": ("i y", "alpha", ""), "total_sum_accum": ("s x i y", "alpha", ""),
    "gemm": ("a b c", "alpha beta", "ta tb ndim batch"),
    "copy": ("x y", "", ""), "copy_intersection": ("x y", "", ""),
}


class TileDriver(Driver):
    """the same vocabulary, executed on single tiles through the tile interface"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.mem = {}

    def new(self, name, sh, ti, dt="f", prec=None, on=False):
        p = 0 if dt != "f" else (prec or self.prec)
        code = DT[(dt, p)]
        if on:
            m = np.zeros(numel(sh) + 3, dtype=NP[(dt, p)]); m[-3:] = 1
            t = L.t_on(code, ctypes.c_long(len(sh)), la(sh), P(m.ctypes.data), ctypes.c_long(numel(sh) + self.slack))
            self.mem[name] = m
        else: t = t_new(code, sh)
        if not t: raise RuntimeError("tile refused")
        self.T[name] = t
        self.meta[name] = (list(sh), list(sh), dt, p)
        self.log(dict(k="new", t=name, sh=list(sh), ti=list(sh), dt=dt, p=p))
        return t

    slack = 0

    def set(self, name, vals, ex=True):
        a = np.asfortranarray(self.arr(name, vals))
        if L.t_put(P(self.T[name]), P(a.ctypes.data)): raise RuntimeError(L.d_last())
        if self.meta[name][2] == "b": vals = [1 if v else 0 for v in vals]
        self.log(dict(k="set", t=name, v=list(vals), ex=bool(ex)))

    def get(self, name):
        sh, ti, dt, p = self.meta[name]
        a = np.zeros(sh if sh else [1], dtype=NP[(dt, p)], order="F")
        if L.t_get(P(self.T[name]), P(a.ctypes.data)): raise RuntimeError(L.d_last())
        return a

    def rm(self, name, mode="sync", log=True):
        t = self.T.pop(name)
        L.t_unregister(P(t))
        L.any_del(P(t))
        m = self.mem.pop(name, None)
        if m is not None:
            # the caller's memory holds the content, and nothing beyond it was touched
            v = m[:-3]
            self.log(dict(k="chk", t=name, v=enc(v) if self.meta[name][2] == "f" else [int(x) for x in v.tolist()]))
            if not all(m[-3:] == 1): self.log(dict(k="bad", why="memory beyond the tile was written"))
        if log: self.log(dict(k="del", t=name))

    def op(self, a, redux=0, blocking=None):
        self.nops += 1
        self.attempt(a)
        if blocking is None: blocking = self.blocking
        names, reals, ints = (q.split() for q in ARGS[a["op"]])
        t = [self.T[a[n]] for n in names]
        k = [int(a[i]) for i in ints]
        if a["op"] in ("copy", "copy_intersection"):
            if a["op"] == "copy_intersection":
                xo, yo = a["xo"], a["yo"]
                n = max(len(xo), 1)
                if len(xo) != len(yo): raise RuntimeError("driver: offsets")
                k = [len(xo)] + xo + yo
                scr = t_new(2, [2 * n])
                t.append(scr)
            rc = L.t_move(("tile_" + a["op"]).encode(), DT[self.meta[a["x"]][2:]], (P * len(t))(*t), la(k), 0 if blocking else 1)
            if a["op"] == "copy_intersection":
                L.t_unregister(P(scr)); L.any_del(P(scr))
        else:
            rc = L.t_op(a["op"].encode(), self.prec, (P * len(t))(*t), da([F(a[q]) for q in reals]), la(k), 0 if blocking else 1)
        if rc == 2: raise SystemExit(88)
        res = "ok" if rc == 0 else "err"
        self.log(dict(k="op", a=a, res=res))
        if blocking and shim("pending"): self.log(dict(k="bad", why="tasks pending after a blocking call"))
        return res
