"""Generators of single requests: operand tensors with data, and the request.

gen(op, rng) returns (tensors, a): tensors is a list of
(name, shape, tile, dt, values or None, exact), a is the request record of
spec/Dense.tla.  Values None: leave the tensor unwritten."""
import random
from nnv import S, NAN, PINF, NINF, numel


class R(random.Random):
    def chance(self, p): return self.random() < p


def shape(r, nd, lo=1, hi=6, cap=160):
    while True:
        if nd and getattr(r, "big", False) and r.chance(0.7):      # one long dimension
            s = [r.randint(lo, min(hi, 3)) for _ in range(nd)]; s[r.randrange(nd)] = r.randint(33, 300)
            if r.big == "once":
                if numel(s) > 400: continue
                r.big = False
                return s
            if numel(s) <= cap: return s
            continue
        s = [r.randint(lo, hi) for _ in range(nd)]
        if nd and r.chance(0.15): s[r.randrange(nd)] = r.randint(7, 13)
        if nd and r.chance(0.05): s[r.randrange(nd)] = r.randint(14, 40)
        if nd and r.chance(0.2): s[r.randrange(nd)] = 1
        if numel(s) <= cap: return s


def tiling(r, sh, over=True):
    t = tiling1(r, sh)
    if over and sh and r.chance(0.12):      # a tile may be larger than the tensor
        i = r.randrange(len(sh)); t[i] = sh[i] + r.randint(1, 3)
    return t


def tiling1(r, sh):
    m = r.random()
    if m < 0.12: return list(sh)
    if m < 0.2: return [1] * len(sh)
    t = []
    for s in sh:
        c = r.random()
        if c < 0.25: t.append(s)
        elif c < 0.35: t.append(1)
        else: t.append(r.randint(1, s))
    # keep the number of tiles moderate
    while True:
        n = 1
        for a, b in zip(sh, t): n *= -(-a // b)
        if n <= 80: return t
        i = r.randrange(len(sh)); t[i] = min(sh[i], t[i] + 1)


def data(r, n, style):
    if style == "ex": return [r.randint(-32, 32) * (S // 8) for _ in range(n)]
    if style == "int": return [r.randint(-3, 3) * S for _ in range(n)]
    if style == "pos": return [r.randint(1, 32) * (S // 8) for _ in range(n)]
    if style == "real": return [r.randint(-3 * 1024, 3 * 1024) * (S // 1024) for _ in range(n)]
    if style == "posreal": return [r.randint(200, 4 * 1024) * (S // 1024) for _ in range(n)]
    if style == "nan": return [NAN if r.chance(0.7) else r.randint(-8, 8) * S for _ in range(n)]
    if style == "zero": return [0] * n
    if style == "mixed":   # exact data with zeros and signs
        return [0 if r.chance(0.3) else r.randint(-16, 16) * (S // 4) for _ in range(n)]
    if style == "logit":
        return [NINF if r.chance(0.15) else r.randint(-5 * 64, 5 * 64) * (S // 64) for _ in range(n)]
    if style == "wide":    # arguments where functions are flat, underflow or grow
        return [r.choice([r.randint(-3 * 1024, 3 * 1024) * (S // 1024), r.randint(-9 * 64, 9 * 64) * (S // 64), r.randint(-60 * 8, 60 * 8) * (S // 8)]) for _ in range(n)]
    if style == "far":     # logits far from zero
        o = r.choice([-20000, 20000, 3000, -3000, 300, -100]) * S
        return [NINF if r.chance(0.15) else o + r.randint(-5 * 64, 5 * 64) * (S // 64) for _ in range(n)]
    raise KeyError(style)


COEF = [0, S, -S, 2 * S, S // 2, -S // 2, 3 * S, S // 4, -3 * S // 2]
def coef(r, zero=True):
    c = r.choice(COEF[:2] * 2 + COEF)
    while not zero and c == 0: c = r.choice(COEF)
    return c


class Case:
    def __init__(self, r):
        self.r = r
        self.ten = []

    def t(self, name, sh, ti, style="ex", dt="f", ex=None, vals=None):
        v = vals if vals is not None else data(self.r, numel(sh), style) if style else None
        self.ten.append([name, list(sh), list(ti), dt, v,
                         (style in ("ex", "int", "pos", "zero", "mixed", "nan")) if ex is None else ex])
        return name


def dst_style(r, beta, usual="ex"):
    """content of a destination whose coefficient is beta"""
    return r.choice(["nan", None]) if beta == 0 and r.chance(0.7) else usual


def slice_of(sh, axis): return sh[:axis] + sh[axis + 1:]


def fiber_of(sh, axis, b): return [sh[axis]] + sh[len(sh) - b:]


def pair_of(sh, axis): return [2] + slice_of(sh, axis)


def labels(r, n, k):
    return [r.randrange(k) for _ in range(n)]


ELEM1 = ["fill", "clear", "relu", "drelu", "gelu", "dgelu", "gelutanh_inplace", "dgelutanh", "pow",
         "sqrt_inplace", "scal_inplace", "add_scalar", "hypot_scalar_inverse"]
ELEM2 = ["add", "hypot", "scal", "prod", "maximum", "sqrt", "copy", "gelutanh", "relu_forward", "axpy"]
ELEM3 = ["relu_backward", "gelu_backward", "gelutanh_backward", "addcdiv", "adam", "adamw", "axpy_t"]
BCAST = ["add_slice", "prod_slice", "add_slice3", "add_fiber", "prod_fiber", "prod_fiber3"]
REDUCE = ["sum_slice", "norm_slice", "sumprod_slice", "sum_fiber", "sumprod_fiber", "sumnorm", "nrm2"]
SOFT = ["maxsumexp", "softmax", "softmax_inplace", "logsumexp"]
INDEXED = ["embedding", "embedding_backward", "subtract_indexed_outputs", "total_sum_accum"]
MOVE = ["copy", "gather", "scatter", "copy_intersection"]
ALL = ELEM1 + ELEM2 + ELEM3 + BCAST + REDUCE + SOFT + INDEXED + \
    ["gather", "scatter", "copy_intersection", "gemm", "transpose", "mask_scalar", "normalize"]


def a_x(c): return c.ten[-1][4]


def gen(op, r, size=160):
    c = Case(r)
    r.big = r.chance(0.03)
    if r.big: size = 1200
    nd = r.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5])
    a = dict(op=op)
    if op in ELEM1:
        sh = shape(r, nd, cap=size); ti = tiling(r, sh)
        st = {"pow": "pos", "sqrt_inplace": "pos", "gelu": "real", "dgelu": "real", "gelutanh_inplace": "real",
              "dgelutanh": "real", "hypot_scalar_inverse": "posreal", "relu": "mixed", "drelu": "mixed"}.get(op, "ex")
        if op == "fill": a["alpha"] = r.randint(-64, 64) * (S // 8); st = r.choice(["nan", None, "ex"])
        if op == "clear": st = r.choice(["nan", None, "ex"])
        if op == "scal_inplace": a["alpha"] = coef(r)
        if op == "add_scalar": a["alpha"] = coef(r); a["beta"] = coef(r); st = "ex"
        if op == "pow":
            a["alpha"] = coef(r); a["exp"] = r.choice([0, S, 2 * S, -S, S // 2, -S // 2, 3 * S])
            st = "posreal" if a["exp"] != 3 * S else "pos"
        if op == "hypot_scalar_inverse":
            a["alpha"] = r.choice([S, 2 * S, S // 2, -S]); a["eps"] = r.choice([S // 4, S // 2, S, 0])
        if "gelu" in op and r.chance(0.3): st = "wide"
        a["x"] = c.t("x", sh, ti, st)
    elif op in ELEM2:
        sh = shape(r, nd, cap=size); ti = tiling(r, sh)
        st = {"hypot": "real", "sqrt": "posreal", "gelutanh": "real"}.get(op, "mixed" if op in ("maximum", "relu_forward") else "ex")
        if op in ("gelutanh", "hypot") and r.chance(0.3): st = "wide"
        ds = st
        if op in ("add", "hypot"):
            a["alpha"] = coef(r); a["beta"] = coef(r)
            ds = dst_style(r, a["beta"], st)
            if ds is None and a["alpha"] == 0: ds = "nan"
        if op == "axpy": a["alpha"] = coef(r); ds = st
        if op == "scal": a["alpha"] = coef(r)
        if op in ("scal", "sqrt", "gelutanh", "relu_forward", "copy"): ds = r.choice(["nan", None, "ex"])
        dt = "f"
        if op == "copy" and r.chance(0.3): dt = "i"
        if dt == "i":
            a["x"] = c.t("x", sh, ti, None, "i", True, [r.randint(-10**6, 10**6) for _ in range(numel(sh))])
            a["y"] = c.t("y", sh, ti, None, "i", True, [r.randint(-100, 100) for _ in range(numel(sh))])
        else:
            a["x"] = c.t("x", sh, ti, st)
            a["y"] = c.t("y", sh, ti, ds)
    elif op in ELEM3:
        sh = shape(r, nd, cap=size); ti = tiling(r, sh)
        if op == "axpy_t":
            a["a"] = c.t("a", [], [], "ex"); a["x"] = c.t("x", sh, ti); a["y"] = c.t("y", sh, ti)
        elif op == "addcdiv":
            a["alpha"] = coef(r); a["eps"] = r.choice([0, S // 4, S])
            a["n"] = c.t("n", sh, ti, "real"); a["d"] = c.t("d", sh, ti, "posreal"); a["y"] = c.t("y", sh, ti, "real")
        elif op in ("adam", "adamw"):
            a.update(lr=r.choice([S // 8, S // 2, S]), eps=r.choice([S // 8, S // 2, 16]), b1=r.choice([S // 2, 58982, 3 * S // 4]),
                     b2=r.choice([S // 2, 62259, 3 * S // 4]), wd=r.choice([0, S // 8, S // 2]), it=r.randint(1, 6))
            a["p"] = c.t("p", sh, ti, "real")
            # (a decayed gradient which nearly vanishes would be below the resolution of the numbers)
            if op == "adam" and a["wd"]: c.ten[-1][4] = [abs(v) for v in c.ten[-1][4]]
            a["g"] = c.t("g", sh, ti, "posreal" if r.chance(0.5) else "pos")
            fresh = a["it"] == 1
            ms = r.choice(["nan", None]) if fresh and r.chance(0.7) else "real"
            vs = r.choice(["nan", None]) if fresh and r.chance(0.7) else "posreal"
            a["m"] = c.t("m", sh, ti, ms); a["v"] = c.t("v", sh, ti, vs)
        else:
            st = "mixed" if op == "relu_backward" else "wide" if "gelu" in op and r.chance(0.3) else "real"
            ds = "real" if st == "wide" else st
            a["x"] = c.t("x", sh, ti, st); a["dy"] = c.t("dy", sh, ti, ds); a["dx"] = c.t("dx", sh, ti, ds)
    elif op in BCAST:
        nd = max(nd, 1); sh = shape(r, nd, cap=size); ti = tiling(r, sh)
        b = r.randint(0, nd - 1) if op == "add_fiber" else 0
        axis = r.randrange(nd - b)
        a["axis"] = axis; a["alpha"] = coef(r)
        if op.startswith("add"): a["beta"] = coef(r)
        if op == "add_fiber": a["batch"] = b
        part = (lambda q: slice_of(q, axis)) if "slice" in op else (lambda q: fiber_of(q, axis, b))
        a["s"] = c.t("s", part(sh), part(ti), "ex")
        if op.endswith("3"):
            a["x"] = c.t("x", sh, ti, "ex")
            a["y"] = c.t("y", sh, ti, r.choice(["nan", None, "ex"]))
        else:
            ds = "ex"
            if op.startswith("add"):
                ds = dst_style(r, a["beta"])
                if ds is None and a["alpha"] == 0: ds = "nan"
            a["y"] = c.t("y", sh, ti, ds)
    elif op in REDUCE and op != "nrm2":
        nd = max(nd, 1); sh = shape(r, nd, cap=size); ti = tiling(r, sh)
        b = r.randint(0, nd - 1) if op == "sum_fiber" else 0
        axis = r.randrange(nd - b)
        a["axis"] = axis
        st = "real" if "norm" in op else "ex"
        if op != "sumnorm": a["alpha"] = coef(r); a["beta"] = coef(r)
        if op == "sum_fiber": a["batch"] = b
        if op == "norm_slice": a["alpha"] = r.choice([S, 2 * S, S // 2, -S, 0])
        a["x"] = c.t("x", sh, ti, st)
        if "sumprod" in op: a["x2"] = c.t("x2", sh, ti, "ex")
        if op == "sumnorm":
            a["y"] = c.t("y", pair_of(sh, axis), pair_of(ti, axis)[:0] + [2] + slice_of(ti, axis), r.choice(["zero", "real", "nan", None]))
        else:
            part = (lambda q: slice_of(q, axis)) if "slice" in op else (lambda q: fiber_of(q, axis, b))
            ds = dst_style(r, a["beta"], "real" if "norm" in op else "ex")
            a["y"] = c.t("y", part(sh), part(ti), ds)
    elif op == "nrm2":
        sh = shape(r, nd, cap=size); ti = tiling(r, sh)
        a["alpha"] = coef(r); a["beta"] = coef(r)
        grid = [-(-x // y) for x, y in zip(sh, ti)]
        a["x"] = c.t("x", sh, ti, "real")
        a["y"] = c.t("y", [], [], dst_style(r, a["beta"], "real"))
        a["tmp"] = c.t("tmp", grid, [1] * len(grid), None)
    elif op in SOFT:
        nd = max(nd, 1); sh = shape(r, nd, cap=size); ti = tiling(r, sh); axis = r.randrange(nd)
        ps, pt = pair_of(sh, axis), [2] + slice_of(ti, axis)
        if op == "maxsumexp":
            a["axis"] = axis
            a["x"] = c.t("x", sh, ti, r.choice(["logit", "real"]) if r.chance(0.75) else "far")
            n = numel(ps) // 2; v = []
            fresh = r.chance(0.6)
            off = r.choice([q for q in a_x(c) if q != NINF] + [0]) if r.chance(0.5) else 0
            for _ in range(n):
                v += [0, 0] if fresh or r.chance(0.3) else [off + r.randint(-320, 320) * (S // 64), r.randint(64, 256) * (S // 64)]
            a["y"] = c.t("y", ps, pt, None, ex=False, vals=v)
        elif op == "logsumexp":
            v = []
            off = r.choice([-20000, 20000, 300, -100]) * S if r.chance(0.25) else 0
            for _ in range(numel(ps) // 2): v += [off + r.randint(-320, 320) * (S // 64), r.randint(64, 512) * (S // 64)]
            a["x"] = c.t("x", ps, pt, None, ex=False, vals=v)
            a["y"] = c.t("y", ps[1:], pt[1:], r.choice(["nan", None, "ex"]))
        else:
            a["axis"] = axis; a["alpha"] = coef(r)
            v = []
            off = r.choice([-20000, 20000, 300, -100]) * S if r.chance(0.25) else 0
            for _ in range(numel(ps) // 2): v += [off + r.randint(128, 320) * (S // 64), r.randint(64, 256) * (S // 64)]
            a["s"] = c.t("s", ps, pt, None, ex=False, vals=v)
            x = data(r, numel(sh), "logit")
            x = [q if q == NINF else off + min(q, 2 * S) for q in x]
            if op == "softmax":
                a["x"] = c.t("x", sh, ti, None, ex=True, vals=x)
                a["y"] = c.t("y", sh, ti, r.choice(["nan", None, "ex"]))
            else: a["y"] = c.t("y", sh, ti, None, ex=True, vals=x)
    elif op == "normalize":
        nd = max(nd, 1); sh = shape(r, nd, cap=size)
        axis = r.randrange(nd); sh[axis] = max(sh[axis], 2); ti = tiling(r, sh)
        ps, pt = pair_of(sh, axis), [2] + slice_of(ti, axis)
        x = data(r, numel(sh), "real")
        # consistent statistics
        m = numel(sh[:axis]); k = sh[axis]; v = []
        for q in range(numel(sh) // k):
            row = [x[(q % m) + m * (l + k * (q // m))] / S for l in range(k)]
            v += [int(sum(row) * S), int((sum(y * y for y in row)) ** .5 * S + .5)]
        a.update(axis=axis, l=k, eps=r.choice([S // 4, S, S // 16]))
        a["gb"] = c.t("gb", [2], [2], "ex")
        a["s"] = c.t("s", ps, pt, None, ex=False, vals=v)
        a["y"] = c.t("y", sh, ti, None, ex=True, vals=x)
    elif op == "gemm":
        while True:
            K = r.choice([1, 1, 1, 2, 0]); B = r.choice([0, 0, 1, 2]); M = r.choice([0, 1, 1, 2]); N = r.choice([0, 1, 1, 2])
            k, b, m, n = shape(r, K, hi=5), shape(r, B, hi=3), shape(r, M, hi=5), shape(r, N, hi=5)
            if numel(k) * numel(b) * numel(m) * numel(n) <= 6 * size and max(numel(k + m + b), numel(k + n + b), numel(m + n + b)) <= size \
                    and (K > 0 or r.chance(0.2)): break
        tk, tb_, tm, tn = tiling(r, k), tiling(r, b), tiling(r, m), tiling(r, n)
        a.update(alpha=coef(r), beta=coef(r), ta=r.chance(0.5), tb=r.chance(0.5), ndim=K, batch=B)
        ash, ati = (k + m + b, tk + tm + tb_) if a["ta"] else (m + k + b, tm + tk + tb_)
        bsh, bti = (n + k + b, tn + tk + tb_) if a["tb"] else (k + n + b, tk + tn + tb_)
        a["a"] = c.t("a", ash, ati); a["b"] = c.t("b", bsh, bti)
        ds = dst_style(r, a["beta"])
        a["c"] = c.t("c", m + n + b, tm + tn + tb_, ds)
    elif op == "transpose":
        nd = r.choice([2, 2, 3, 3, 4]); sh = shape(r, nd, cap=size); ti = tiling(r, sh)
        k = r.randint(1, nd - 1)
        a.update(alpha=coef(r, False), ndim=k)
        a["x"] = c.t("x", sh, ti)
        a["y"] = c.t("y", sh[k:] + sh[:k], ti[k:] + ti[:k], r.choice(["nan", None, "ex"]))
    elif op in ("gather", "scatter"):
        sh = shape(r, nd, cap=size); ti = tiling(r, sh)
        dt = r.choice(["f", "f", "i", "b"])
        v = data(r, numel(sh), "real") if dt == "f" else [r.randint(-1000, 1000) for _ in range(numel(sh))] if dt == "i" \
            else [r.randint(0, 1) for _ in range(numel(sh))]
        one, many = (sh, list(sh)), (sh, ti)
        src, dst = (many, one) if op == "gather" else (one, many)
        a["x"] = c.t("x", *src, None, dt, True, v)
        a["y"] = c.t("y", *dst, None, dt, True)
    elif op == "copy_intersection":
        xs = shape(r, nd, cap=size); ys = list(xs) if r.chance(0.3) else shape(r, nd, cap=size)
        xt = tiling(r, xs); yt = list(xt) if ys == xs and r.chance(0.5) else tiling(r, ys)
        m = r.random()
        xo = [r.randint(-3, 5) for _ in range(nd)]
        if m < 0.25: yo = list(xo)
        elif m < 0.9: yo = [o + r.randint(-min(3, y - 1) if y > 1 else 0, max(0, min(3, x - 1))) for o, x, y in zip(xo, xs, ys)]
        else: yo = [r.randint(-8, 12) for _ in range(nd)]
        a.update(xo=xo, yo=yo)
        dt = r.choice(["f", "f", "i"])
        if dt == "f":
            a["x"] = c.t("x", xs, xt, "real", ex=True); a["y"] = c.t("y", ys, yt, "real", ex=True)
        else:
            a["x"] = c.t("x", xs, xt, None, "i", True, [r.randint(-1000, 1000) for _ in range(numel(xs))])
            a["y"] = c.t("y", ys, yt, None, "i", True, [r.randint(-1000, 1000) for _ in range(numel(ys))])
    elif op == "mask_scalar":
        nd = max(nd, 1); sh = shape(r, nd, cap=size); ti = tiling(r, sh); b = r.randint(0, nd)
        if b == nd: b = nd - 1
        ms, mt = sh[:nd - b], ti[:nd - b]
        p = r.choice([0.5, 0.5, 0.1, 0.9, 0, 1])
        a.update(alpha=r.choice([NINF, 0, S, -5 * S]), batch=b)
        a["mask"] = c.t("mask", ms, mt, None, "b", True, [1 if r.chance(p) else 0 for _ in range(numel(ms))])
        a["y"] = c.t("y", sh, ti, r.choice(["real", "ex", "logit"]), ex=True)
    elif op in ("embedding", "embedding_backward"):
        nd = r.choice([1, 2, 2, 3, 3]); es = shape(r, nd, cap=size)
        axis = r.randrange(nd)
        vt = r.randint(1, min(4, es[axis])); V = r.randint(1, 6)
        et = tiling(r, es); et[axis] = vt * r.randint(1, max(1, es[axis] // vt))
        et[axis] = min(et[axis], (es[axis] // vt) * vt)
        ish, iti = slice_of(es, axis), slice_of(et, axis)
        a["axis"] = axis
        a["i"] = c.t("i", ish, iti, None, "i", True, labels(r, numel(ish), V))
        vs = [es[axis], V]
        if op == "embedding":
            a["v"] = c.t("v", vs, [vt, V], "ex")
            a["e"] = c.t("e", es, et, r.choice(["nan", None, "ex"]))
        else:
            a["v"] = c.t("v", vs, [vt, V], "ex")
            a["e"] = c.t("e", es, et, "ex")
    elif op in ("subtract_indexed_outputs", "total_sum_accum"):
        nd = r.choice([0, 1, 1, 2, 2, 3]); ls = shape(r, nd, cap=size // 4); lt = tiling(r, ls); k = r.randint(1, 6)
        a["alpha"] = coef(r)
        a["i"] = c.t("i", ls, lt, None, "i", True, labels(r, numel(ls), k))
        if op == "total_sum_accum":
            a["s"] = c.t("s", ls, lt); a["x"] = c.t("x", [k] + ls, [k] + lt); a["y"] = c.t("y", [], [])
        else: a["y"] = c.t("y", [k] + ls, [k] + lt)
    else: raise KeyError(op)
    return c.ten, a


# operations exact on data of 30 bits (only double precision can hold it)
FINE = "fill clear relu scal_inplace add_scalar add scal maximum relu_forward copy axpy add_slice add_slice3 add_fiber sum_slice sum_fiber " \
       "transpose gather scatter copy_intersection mask_scalar embedding embedding_backward subtract_indexed_outputs gemm prod".split()


def fine(op, ten, a, r):
    """double precision: data that single precision cannot represent"""
    if op not in FINE: return
    for f in ("alpha", "beta"):
        if f in a and op not in ("fill", "mask_scalar"): a[f] = r.choice([S, S, -S]) if a[f] else 0
    if op == "fill": a["alpha"] = r.randint(-2**30, 2**30)
    small = {"gemm": "b", "prod": "x"}.get(op)
    for t in ten:
        if t[3] != "f" or t[4] is None or NAN in t[4] or NINF in t[4]: continue
        if t[0] == small: t[4] = [r.choice([0, S, -S]) for _ in t[4]]
        else: t[4] = [r.randint(-2**25, 2**25) for _ in t[4]]


FIELDS = ["x", "y", "a", "b", "c", "s", "x2", "n", "d", "dy", "dx", "p", "g", "m", "v", "e", "gb", "tmp", "mask", "i"]
REDUXOPS = {"sum_slice", "norm_slice", "sumprod_slice", "sum_fiber", "sumprod_fiber", "maxsumexp", "gemm", "embedding_backward"}


def mutate(op, ten, a, r, tiles=True):
    """change one thing about a request that may make it invalid"""
    if tiles and r.chance(0.2):     # another tile size, as many tiles
        for _ in range(40):
            c = [(t, i, x) for t in ten for i in range(len(t[1])) for x in range(1, t[1][i] + 1) if x != t[2][i] and -(-t[1][i] // x) == -(-t[1][i] // t[2][i])]
            if c: break
            ten, a = gen(op, r)
        if c:
            ten = [list(t) for t in ten]
            ts = sorted(set((t[0], i) for t, i, _ in c))
            n, i = r.choice(ts)
            x = r.choice([x for t, j, x in c if t[0] == n and j == i])
            for t in ten:
                if t[0] == n: t[2] = t[2][:i] + [x] + t[2][i+1:]
            return ten, a, "tile of %s, as many" % n
    if r.chance(0.25): ten, a, why = joint(op, ten, a, r)
    else:
        ten, a, why = mutate1(op, ten, a, r)
        if r.chance(0.12):
            ten, a, w2 = mutate1(op, ten, a, r)
            why += "; " + w2
    if op in ("normalize", "softmax", "softmax_inplace", "logsumexp"):     # a norm, a sum of exponents: not negative
        for t in ten:
            if t[0] == ("x" if op == "logsumexp" else "s") and t[3] == "f" and t[4] is not None and t[5]:
                t[4] = [q if i % 2 == 0 or q in (NINF, NAN) else abs(q) + S // 8 for i, q in enumerate(t[4])]
    if op in INDEXED:     # label 0 is in range whatever the shapes became
        for t in ten:
            if t[3] == "i": t[4] = [0] * numel(t[1])
    return ten, a, why


def joint(op, ten, a, r):
    """change an attribute and the numbers of dimensions of some operands together"""
    ten = [list(t) for t in ten]; a = dict(a)
    fs = [f for f in ("batch", "ndim", "axis") if f in a]
    f, k = "", r.choice([-2, -1, 1, 1, 2])
    if fs and r.chance(0.85):
        f = r.choice(fs)
        k = r.choice([-1, 1, 2, -a[f] - 1, -a[f] - 1])
        a[f] += k
    nd = {t[0]: len(t[1]) for t in ten}
    n = sorted(nd)
    if op == "gemm":     # the counts fit together
        for x in r.sample("ab", r.randint(0, 2)): nd[x] = max(0, nd[x] + r.choice([-2, -1, -1, 1]))
        nd["c"] = max(0, nd["a"] + nd["b"] - 2 * a["ndim"] - a["batch"])
        if nd["c"] > 5: nd["c"] = 5
    else:
        g = r.choice([k, -k])
        for x in r.sample(n, r.randint(1, len(n) - 1 or 1)): nd[x] = max(0, nd[x] + g)
    for t in ten:
        d = nd[t[0]] - len(t[1])
        if not d: continue
        for _ in range(-d):
            i = r.choice([0, len(t[1]) - 1]); del t[1][i]; del t[2][i]
        for _ in range(min(d, 3)):
            e = r.choice([1, 1, 2, t[1][-1] if t[1] else 1])
            if numel(t[1]) * e > 400: e = 1
            i = r.choice([0, len(t[1])])
            t[1].insert(i, e); t[2].insert(i, r.choice([1, e]))
        if t[3] == "f": t[4] = data(r, numel(t[1]), "ex"); t[5] = True
        elif t[3] == "i": t[4] = [0 if op in INDEXED else r.randint(-5, 5) for _ in range(numel(t[1]))]
        else: t[4] = [r.randint(0, 1) for _ in range(numel(t[1]))]
    return ten, a, "%s and dimensions" % f


def mutate1(op, ten, a, r):
    ten = [list(t) for t in ten]; a = dict(a)
    for _ in range(50):
        m = r.random()
        if m < 0.3 and any(f in a for f in ("axis", "batch", "ndim")):
            f = r.choice([f for f in ("axis", "batch", "ndim") if f in a])
            a[f] += r.choice([-2, -1, 1, 1, 2, 3, -a[f] - 1])
            return ten, a, f
        t = r.choice(ten)
        nd = len(t[1])
        if m < 0.5:      # tile size
            c = [i for i in range(nd) if t[1][i] > 1]
            if not c: continue
            i = r.choice(c); o = t[2][i]
            t[2][i] = r.choice([x for x in range(1, t[1][i] + 1) if x != o])
            return ten, a, "tile of " + t[0]
        if m < 0.8:      # extent
            if not nd: continue
            i = r.randrange(nd); o = t[1][i]
            t[1][i] = max(1, o + r.choice([-1, 1, 2]))
            t[2][i] = min(t[2][i], t[1][i])
            if t[1][i] == o: continue
        elif m < 0.9:    # one dimension more
            i = r.randint(0, nd); e = r.choice([1, 2])
            t[1].insert(i, e); t[2].insert(i, r.randint(1, e))
        else:            # one dimension less
            if not nd: continue
            i = r.randrange(nd); del t[1][i]; del t[2][i]
        if t[3] == "f": t[4] = data(r, numel(t[1]), "ex"); t[5] = True
        elif t[3] == "i": t[4] = [0 if op in INDEXED else r.randint(-5, 5) for _ in range(numel(t[1]))]
        else: t[4] = [r.randint(0, 1) for _ in range(numel(t[1]))]
        return ten, a, "shape of " + t[0]
    return ten, a, "nothing"
