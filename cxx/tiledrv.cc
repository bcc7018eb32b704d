// C interface to NNTile's C++ API (tiles, tensors of every element type,
// traits, StarPU handles) for the Python drivers.
#include <nntile/tile.hh>
#include <nntile/tensor.hh>
#include <nntile/tensor/distributions.hh>
#include <nntile/starpu/copy.hh>
#include <nntile/starpu/scal_inplace.hh>
#include <nntile/starpu/add.hh>
#include <nntile/starpu/fill.hh>
#include <nntile/starpu/clear.hh>
#include <cstring>
#include <sstream>
#include <string>
#include <memory>

using namespace nntile;
using tile::Tile;
using tensor::Tensor;
using tensor::TensorTraits;
using tile::TileTraits;

namespace {
std::string last;
const char *ret(const std::string &s) { last = s; return last.c_str(); }
template<class F> int guard(F f)
{
    try { f(); return 0; }
    catch(const std::exception &e) { last = e.what(); return 1; }
}
std::vector<Index> vec(long n, const long *p) { return std::vector<Index>(p, p+n); }
std::string show(const std::vector<Index> &v)
{
    std::ostringstream s; s << "[";
    for(size_t i = 0; i < v.size(); ++i) s << (i ? "," : "") << v[i];
    s << "]"; return s.str();
}
enum { F32, F64, I64, BOOL, F16 };
// a tile or a tensor of any element type
struct Any
{
    int dt;
    std::shared_ptr<void> p;
    template<class T> Tile<T> &tile() const { return *static_cast<Tile<T> *>(p.get()); }
    template<class T> Tensor<T> &ten() const { return *static_cast<Tensor<T> *>(p.get()); }
};
template<class T> void put(const Tile<T> &t, const void *src)
{
    auto l = t.acquire(STARPU_W); std::memcpy(l.get_ptr(), src, t.nelems*sizeof(T)); l.release();
}
template<class T> void get(const Tile<T> &t, void *dst)
{
    auto l = t.acquire(STARPU_R); std::memcpy(dst, l.get_ptr(), t.nelems*sizeof(T)); l.release();
}
#define BYTYPE(dt, CALL) switch(dt) { case F32: { using T = fp32_t; CALL; break; } case F64: { using T = fp64_t; CALL; break; } \
    case I64: { using T = Index; CALL; break; } case BOOL: { using T = bool_t; CALL; break; } case F16: { using T = fp16_t; CALL; break; } \
    default: throw std::runtime_error("driver: element type"); }

struct BadOp {};
template<class T>
void op(const std::string &n, Any **t, const double *r, const long *k, bool async)
{
    auto X = [&](int i) -> const Tile<T> & { return t[i]->tile<T>(); };
    auto I = [&](int i) -> const Tile<Index> & { return t[i]->tile<Index>(); };
    T a = r[0], b = r[1];
#define OP(name, f, ...) if(n == name) { if(async) tile::f##_async<T>(__VA_ARGS__); else tile::f<T>(__VA_ARGS__); return; }
    OP("fill", fill, a, X(0))
    OP("clear", clear, X(0))
    OP("relu", relu, X(0))
    OP("drelu", drelu, X(0))
    OP("gelu", gelu, X(0))
    OP("dgelu", dgelu, X(0))
    OP("gelutanh_inplace", gelutanh_inplace, X(0))
    OP("dgelutanh", dgelutanh, X(0))
    OP("pow", pow, a, b, X(0))
    OP("sqrt_inplace", sqrt_inplace, X(0))
    OP("scal_inplace", scal_inplace, a, X(0))
    OP("add_scalar", add_scalar, a, b, X(0))
    OP("add", add, a, X(0), b, X(1))
    OP("hypot", hypot, a, X(0), b, X(1))
    OP("scal", scal, a, X(0), X(1))
    OP("prod", prod, X(0), X(1))
    OP("maximum", maximum, X(0), X(1))
    OP("sqrt", sqrt, X(0), X(1))
    OP("gelutanh", gelutanh, X(0), X(1))
    OP("relu_forward", relu_forward, X(0), X(1))
    OP("copy", copy, X(0), X(1))
    OP("axpy", axpy, a, X(0), X(1))
    OP("axpy_t", axpy, X(0), X(1), X(2))
    OP("relu_backward", relu_backward, X(0), X(1), X(2))
    OP("gelu_backward", gelu_backward, X(0), X(1), X(2))
    OP("gelutanh_backward", gelutanh_backward, X(0), X(1), X(2))
    OP("addcdiv", addcdiv, a, b, X(0), X(1), X(2))
    OP("adam", adam_step, k[0], T(r[0]), T(r[1]), T(r[2]), T(r[3]), T(r[4]), X(0), X(1), X(2), X(3))
    OP("adamw", adamw_step, k[0], T(r[0]), T(r[1]), T(r[2]), T(r[3]), T(r[4]), X(0), X(1), X(2), X(3))
    OP("add_slice", add_slice, a, X(0), b, X(1), k[0])
    OP("add_slice3", add_slice3, a, X(0), b, X(1), X(2), k[0])
    OP("add_fiber", add_fiber, a, X(0), b, X(1), k[0], k[1])
    OP("prod_slice", prod_slice, X(0), a, X(1), k[0])
    OP("prod_fiber", prod_fiber, X(0), a, X(1), k[0])
    OP("prod_fiber3", prod_fiber3, X(0), a, X(1), X(2), k[0])
    OP("sum_slice", sum_slice, a, X(0), b, X(1), k[0])
    OP("norm_slice", norm_slice, a, X(0), b, X(1), k[0])
    OP("sumprod_slice", sumprod_slice, a, X(0), X(1), b, X(2), k[0])
    OP("sum_fiber", sum_fiber, a, X(0), b, X(1), k[0], k[1])
    OP("sumprod_fiber", sumprod_fiber, a, X(0), X(1), b, X(2), k[0])
    OP("sumnorm", sumnorm, X(0), X(1), k[0])
    OP("maxsumexp", maxsumexp, X(0), X(1), k[0])
    OP("softmax", softmax, X(0), X(1), a, X(2), k[0])
    OP("softmax_inplace", softmax_inplace, X(0), a, X(1), k[0])
    OP("logsumexp", logsumexp, X(0), X(1))
    OP("normalize", normalize, X(0), X(1), X(2), k[0], a, k[1])
    OP("nrm2_tile", nrm2, a, X(0), b, X(1), X(2))
    OP("mask_scalar", mask_scalar, t[0]->tile<bool_t>(), a, X(1))
    OP("subtract_indexed_outputs", subtract_indexed_outputs, a, I(0), X(1))
    OP("total_sum_accum", total_sum_accum, a, X(0), X(1), I(2), X(3))
#undef OP
    if(n == "gemm")
    {
        TransOp ta = k[0] ? TransOp(TransOp::Trans) : TransOp(TransOp::NoTrans);
        TransOp tb = k[1] ? TransOp(TransOp::Trans) : TransOp(TransOp::NoTrans);
        if(async) tile::gemm_async<T, T>(a, ta, X(0), tb, X(1), b, X(2), k[2], k[3]);
        else tile::gemm<T, T>(a, ta, X(0), tb, X(1), b, X(2), k[2], k[3]);
        return;
    }
    if(n == "randn")
    {
        long nd = k[0];
        auto st = vec(nd, k+2), sh = vec(nd, k+2+nd);
        if(async) tile::randn_async<T>(X(0), st, sh, k[1], a, b); else tile::randn<T>(X(0), st, sh, k[1], a, b);
        return;
    }
    throw BadOp();
}
template<class T>
void move(const std::string &n, Any **t, const long *k, bool async)
{
    constexpr bool plain = std::is_same_v<T, fp32_t> || std::is_same_v<T, fp64_t> || std::is_same_v<T, Index>;
    if constexpr(plain)
    {
        if(n == "tile_copy") { const Tile<T> &x = t[0]->tile<T>(), &y = t[1]->tile<T>(); if(async) tile::copy_async<T>(x, y); else tile::copy<T>(x, y); return; }
        if(n == "tile_copy_intersection")
        {
            const Tile<T> &x = t[0]->tile<T>(), &y = t[1]->tile<T>(); const Tile<Index> &s = t[2]->tile<Index>();
            auto xo = vec(k[0], k+1), yo = vec(k[0], k+1+k[0]);
            if(async) tile::copy_intersection_async<T>(x, xo, y, yo, s); else tile::copy_intersection<T>(x, xo, y, yo, s);
            return;
        }
        if(n == "copy") { const Tensor<T> &x = t[0]->ten<T>(), &y = t[1]->ten<T>(); if(async) tensor::copy_async<T>(x, y); else tensor::copy<T>(x, y); return; }
        if(n == "copy_intersection")
        {
            const Tensor<T> &x = t[0]->ten<T>(), &y = t[1]->ten<T>();
            auto xo = vec(k[0], k+1), yo = vec(k[0], k+1+k[0]);
            if(async) tensor::copy_intersection_async<T>(x, xo, y, yo); else tensor::copy_intersection<T>(x, xo, y, yo);
            return;
        }
    }
    const Tensor<T> &x = t[0]->ten<T>(), &y = t[1]->ten<T>();
    if(n == "gather") { if(async) tensor::gather_async<T>(x, y); else tensor::gather<T>(x, y); return; }
    if(n == "scatter") { if(async) tensor::scatter_async<T>(x, y); else tensor::scatter<T>(x, y); return; }
    throw BadOp();
}
} // namespace

namespace {
// ---- objects that own handles, for histories of their lives
struct Obj
{
    virtual ~Obj() {}
    virtual starpu::Handle handle(long i) = 0;      // a copy: shares ownership while it lives
    virtual void *id(long i) = 0;
    virtual void unreg() = 0;
    virtual Obj *copy() { throw std::runtime_error("driver: copy"); }
    virtual Obj *view(long) { throw std::runtime_error("driver: view"); }
};
static void *raw(const starpu::Handle &h) { return (void *)static_cast<starpu_data_handle_t>(h); }
struct OVar: Obj
{
    starpu::VariableHandle h;
    template<class... A> OVar(A... a): h(a...) {}
    starpu::Handle handle(long) { return h; }
    void *id(long) { return raw(h); }
    void unreg() { h.unregister(); }
    Obj *copy() { return new OVar(h); }
};
struct OHandle: Obj
{
    starpu::Handle h;
    OHandle(const starpu::Handle &h_): h(h_) {}
    starpu::Handle handle(long) { return h; }
    void *id(long) { return raw(h); }
    void unreg() { h.unregister(); }
    Obj *copy() { return new OHandle(h); }
};
struct OTile: Obj
{
    Tile<fp32_t> t;
    template<class... A> OTile(A... a): t(a...) {}
    OTile(const Tile<fp32_t> &t_): t(t_) {}
    starpu::Handle handle(long) { return t; }
    void *id(long) { return raw(t); }
    void unreg() { t.unregister(); }
    Obj *copy() { return new OTile(t); }
    Obj *view(long) { return new OHandle(t); }
};
struct OTensor: Obj
{
    Tensor<fp32_t> t;
    OTensor(const Tensor<fp32_t> &t_): t(t_) {}
    static OTensor *make(long n, long tile, long nd)
    {
        TensorTraits tr({n}, {tile}); std::vector<int> ds(nd, 0); starpu_mpi_tag_t tag = 0;
        return new OTensor(Tensor<fp32_t>(tr, ds, tag));
    }
    starpu::Handle handle(long i) { return t.get_tile_handle(i); }
    void *id(long i) { return raw(t.get_tile_handle(i)); }
    void unreg() { t.unregister(); }
    Obj *copy() { return new OTensor(t); }
    Obj *view(long i) { return new OTile(t.get_tile(i)); }
};
struct OLocal: Obj
{
    starpu::HandleLocalData l;
    OLocal(const starpu::Handle &h, starpu_data_access_mode m): l(h, m) {}
    starpu::Handle handle(long) { throw std::runtime_error("driver: handle"); }
    void *id(long) { return nullptr; }
    void unreg() { l.release(); }
};
static starpu_data_access_mode gmode(int m)
{ return m == 0 ? STARPU_R : m == 1 ? STARPU_W : m == 2 ? STARPU_RW : m == 3 ? STARPU_SCRATCH : m == 4 ? STARPU_REDUX : starpu_data_access_mode(0); }
template<class F> static void *made(F f) { void *p = nullptr; return guard([&]{ p = (Obj *)f(); }) ? nullptr : p; }
}

extern "C" {

const char *d_last() { return last.c_str(); }
// ---- tiles
Any *t_new(int dt, long nd, const long *sh)
{
    Any *a = new Any{dt, nullptr};
    int rc = guard([&]{ auto s = vec(nd, sh); BYTYPE(dt, a->p = std::make_shared<Tile<T>>(s)) });
    if(rc) { delete a; return nullptr; }
    return a;
}
// a tile on memory of the caller (cap elements)
Any *t_on(int dt, long nd, const long *sh, void *mem, long cap)
{
    Any *a = new Any{dt, nullptr};
    int rc = guard([&]{ auto s = vec(nd, sh); BYTYPE(dt, a->p = std::make_shared<Tile<T>>(s, (T *)mem, cap)) });
    if(rc) { delete a; return nullptr; }
    return a;
}
void any_del(Any *a) { delete a; }
int t_put(Any *a, const void *src) { return guard([&]{ BYTYPE(a->dt, put<T>(a->tile<T>(), src)) }); }
int t_get(Any *a, void *dst) { return guard([&]{ BYTYPE(a->dt, get<T>(a->tile<T>(), dst)) }); }
void t_unregister(Any *a) { BYTYPE(a->dt, a->tile<T>().unregister()) }
int t_op(const char *n, int prec, Any **t, const double *r, const long *k, int async)
{
    try
    {
        if(prec == 64) op<fp64_t>(n, t, r, k, async); else op<fp32_t>(n, t, r, k, async);
        return 0;
    }
    catch(const std::exception &e) { last = e.what(); return 1; }
    catch(const BadOp &) { return 2; }
}
int t_move(const char *n, int dt, Any **t, const long *k, int async)
{
    try { BYTYPE(dt, move<T>(n, t, k, async)) return 0; }
    catch(const std::exception &e) { last = e.what(); return 1; }
    catch(const BadOp &) { return 2; }
}
// ---- tensors
Any *n_new(int dt, long nd, const long *sh, long nb, const long *bt)
{
    Any *a = new Any{dt, nullptr};
    int rc = guard([&]{
        TensorTraits tr(vec(nd, sh), vec(nb, bt)); std::vector<int> ds(tr.grid.nelems, 0); starpu_mpi_tag_t tag = 0;
        BYTYPE(dt, a->p = std::make_shared<Tensor<T>>(tr, ds, tag)) });
    if(rc) { delete a; return nullptr; }
    return a;
}
// one tile of a tensor as a tile that shares its handle
Any *n_tile(Any *t, long i)
{
    Any *a = new Any{t->dt, nullptr};
    int rc = guard([&]{ BYTYPE(t->dt, a->p = std::make_shared<Tile<T>>(t->ten<T>().get_tile(i))) });
    if(rc) { delete a; return nullptr; }
    return a;
}
Any *n_tile_at(Any *t, long n, const long *ix)
{
    Any *a = new Any{t->dt, nullptr};
    auto v = vec(n, ix);
    int rc = guard([&]{ BYTYPE(t->dt, a->p = std::make_shared<Tile<T>>(t->ten<T>().get_tile(v))) });
    if(rc) { delete a; return nullptr; }
    return a;
}
long n_ntiles(Any *t) { long n = 0; BYTYPE(t->dt, n = t->ten<T>().grid.nelems) return n; }
const char *n_tile_shape(Any *t, long i) { std::string s; BYTYPE(t->dt, s = show(t->ten<T>().get_tile_traits(i).shape)) return ret(s); }
void n_unregister(Any *a) { BYTYPE(a->dt, a->ten<T>().unregister()) }
void *n_copy(Any *t) { Any *a = new Any{t->dt, nullptr}; BYTYPE(t->dt, a->p = std::make_shared<Tensor<T>>(t->ten<T>())) return a; }
int n_clear(Any *t) { return guard([&]{ if(t->dt == F32) tensor::clear_async<fp32_t>(t->ten<fp32_t>()); else tensor::clear_async<fp64_t>(t->ten<fp64_t>()); }); }
void *g_handle(long size, int mode) { return made([&]{ return new OVar(size_t(size), gmode(mode)); }); }
void *g_on(void *mem, long size, int mode) { return made([&]{ return new OVar(mem, size_t(size), gmode(mode)); }); }
void *g_tile(long n) { return made([&]{ return new OTile(TileTraits({n})); }); }
void *g_tile_on(void *mem, long n, long cap) { return made([&]{ return new OTile(TileTraits({n}), (fp32_t *)mem, Index(cap)); }); }
void *g_tensor(long n, long tile, long nd) { return made([&]{ return OTensor::make(n, tile, nd); }); }
void *g_copy(void *o) { return made([&]{ return ((Obj *)o)->copy(); }); }
void *g_view(void *o, long i) { return made([&]{ return ((Obj *)o)->view(i); }); }
void *g_local(void *o, long i, int mode) { return made([&]{ return new OLocal(((Obj *)o)->handle(i), gmode(mode)); }); }
void *g_ptr(void *o) { return ((OLocal *)(Obj *)o)->l.get_ptr(); }
void *g_id(void *o, long i) { return ((Obj *)o)->id(i); }
void g_unreg(void *o) { ((Obj *)o)->unreg(); }
void g_del(void *o) { delete (Obj *)o; }
int g_op(const char *n, void **o, const long *ix, const double *r, long m)
{
    auto H = [&](int i) { return ((Obj *)o[i])->handle(ix[i]); };
    std::string s(n);
    return guard([&]{
        if(s == "clear") starpu::clear::submit(H(0));
        else if(s == "copy") starpu::copy::submit(H(0), H(1));
        else if(s == "scal_inplace") starpu::scal_inplace::submit<fp32_t>(r[0], m, H(0));
        else if(s == "add") starpu::add::submit<fp32_t>(m, r[0], H(0), r[1], H(1));
        else if(s == "fill") starpu::fill::submit<fp32_t>(m, r[0], H(0));
        else throw std::runtime_error("driver: handle operation"); });
}
int g_get(void *o, long i, void *dst, long n)
{
    return guard([&]{ auto h = ((Obj *)o)->handle(i); auto l = h.acquire(STARPU_R); std::memcpy(dst, l.get_ptr(), n); l.release(); });
}
// ---- traits
const char *tr_all(long nd, const long *sh, long nb, const long *bt)
{
    try
    {
        TensorTraits t(vec(nd, sh), vec(nb, bt));
        std::ostringstream s;
        s << "{\"res\":\"ok\",\"ndim\":" << t.ndim << ",\"sh\":" << show(t.shape) << ",\"stride\":" << show(t.stride) << ",\"n\":" << t.nelems
          << ",\"ti\":" << show(t.basetile_shape) << ",\"grid\":" << show(t.grid.shape) << ",\"gstride\":" << show(t.grid.stride)
          << ",\"gn\":" << t.grid.nelems << ",\"left\":" << show(t.leftover_shape) << ",\"ms\":[";
        for(Index i = 0; i <= t.ndim; ++i) s << (i ? "," : "") << "[" << t.matrix_shape[i][0] << "," << t.matrix_shape[i][1] << "]";
        s << "],\"tiles\":[";
        for(Index i = 0; i < t.grid.nelems; ++i)
        {
            auto ix = t.grid.linear_to_index(i);
            s << (i ? "," : "") << "[" << show(ix) << "," << show(t.get_tile_shape(ix)) << "," << t.grid.index_to_linear(ix) << "]";
        }
        s << "],\"elems\":[";
        for(Index i = 0; i < t.nelems; ++i)
        {
            auto ix = t.linear_to_index(i);
            s << (i ? "," : "") << "[" << show(ix) << "," << t.index_to_linear(ix) << "]";
        }
        s << "]}";
        return ret(s.str());
    }
    catch(const std::exception &e) { return ret("{\"res\":\"err\"}"); }
}
// as above without the enumeration of tiles and elements
const char *tr_wide(long nd, const long *sh, const long *bt)
{
    try
    {
        TensorTraits t(vec(nd, sh), vec(nd, bt));
        std::ostringstream s;
        s << "{\"res\":\"ok\",\"ndim\":" << t.ndim << ",\"sh\":" << show(t.shape) << ",\"stride\":" << show(t.stride) << ",\"n\":" << t.nelems
          << ",\"ti\":" << show(t.basetile_shape) << ",\"grid\":" << show(t.grid.shape) << ",\"gstride\":" << show(t.grid.stride)
          << ",\"gn\":" << t.grid.nelems << ",\"left\":" << show(t.leftover_shape) << ",\"ms\":[";
        for(Index i = 0; i <= t.ndim; ++i) s << (i ? "," : "") << "[" << t.matrix_shape[i][0] << "," << t.matrix_shape[i][1] << "]";
        s << "]}";
        return ret(s.str());
    }
    catch(const std::exception &e) { return ret("{\"res\":\"err\"}"); }
}
// f: 0 index_to_linear, 1 linear_to_index, 2 contains_index, 3 get_tile_shape,
//    4 index_to_linear of the grid, 5 linear_to_index of the grid, 6 tensor tile at index, 7 tensor tile at offset
const char *tr_ask(int f, long nd, const long *sh, long nb, const long *bt, long n, const long *ix)
{
    try
    {
        TensorTraits t(vec(nd, sh), vec(nb, bt));
        auto v = vec(n, ix); std::vector<Index> r;
        switch(f)
        {
            case 0: r = {t.index_to_linear(v)}; break;
            case 1: r = t.linear_to_index(ix[0]); break;
            case 2: r = {t.contains_index(v) ? 1 : 0}; break;
            case 3: r = t.get_tile_shape(v); break;
            case 4: r = {t.grid.index_to_linear(v)}; break;
            case 5: r = t.grid.linear_to_index(ix[0]); break;
            case 6: case 7:
            {
                std::vector<int> ds(t.grid.nelems, 0); starpu_mpi_tag_t tag = 0;
                Tensor<fp32_t> x(t, ds, tag);
                r = f == 6 ? x.get_tile(v).shape : x.get_tile(ix[0]).shape; break;
            }
        }
        return ret("{\"res\":\"ok\",\"r\":" + show(r) + "}");
    }
    catch(const std::exception &e) { return ret("{\"res\":\"err\",\"r\":[]}"); }
}
const char *d_cyclic(long ng, const long *grid, long np, const long *pg, long start, long max)
{
    try
    {
        std::vector<Index> g = vec(ng, grid); std::vector<int> p(pg, pg+np);
        auto d = tensor::distributions::block_cyclic(g, p, start, max);
        std::ostringstream s; s << "{\"res\":\"ok\",\"r\":[";
        for(size_t i = 0; i < d.size(); ++i) s << (i ? "," : "") << d[i];
        s << "]}"; return ret(s.str());
    }
    catch(const std::exception &e) { return ret("{\"res\":\"err\",\"r\":[]}"); }
}
// distribution of wrong size must be refused
int n_baddistr(long nd, const long *sh, const long *bt, long n)
{
    return guard([&]{ TensorTraits tr(vec(nd, sh), vec(nd, bt)); std::vector<int> ds(n, 0); starpu_mpi_tag_t tag = 0; Tensor<fp32_t> x(tr, ds, tag); });
}
}
