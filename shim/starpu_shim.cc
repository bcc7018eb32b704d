// A stand-in for the StarPU runtime, LD_PRELOADed into processes that use
// libnntile.so / nntile_core.so.  It offers exactly the calls NNTile makes,
// with the semantics the StarPU documentation promises -- and no more:
//
//  * tasks are NOT executed at submission; they are executed later, in an
//    arbitrary (seeded) order among the tasks whose data dependencies (sequential
//    data consistency per handle) are satisfied;
//  * buffers accessed in W mode and SCRATCH buffers hold arbitrary content when
//    the task starts.  All data exist in two worlds, every task runs once in
//    each, and the arbitrary content differs between the worlds: bytes that
//    differ are exactly those that depend on undefined content, and the
//    application must never get to see such a byte;
//  * buffers accessed in R mode must not change, nothing outside a buffer may;
//  * REDUX accesses go to private replicas (any number, chosen by seed) that
//    are merged in an arbitrary order later;
//  * handle lifetime is tracked.
//
// What happened is written as one JSON line per event; the TLA+ module
// RuntimeTrace decides whether it is a behaviour of the specification Runtime.
#include <starpu.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <mutex>
#include <unistd.h>

#undef starpu_init
#undef starpu_task_insert
#undef starpu_task_build
#undef starpu_task_submit

namespace {

constexpr size_t GUARD = 64;
constexpr unsigned char CANARY = 0xC3;
constexpr int POISON_A = 0xFF;
constexpr int POISON_B = 0x5A;

struct Buf {               // memory in two worlds, with guard zones
    char *base[2] = {nullptr, nullptr}; size_t size = 0; bool user = false;
    char *ptr(int w = 0) const { return (user && w == 0) ? base[0] : base[w] + GUARD; }
    void alloc1(int w) {
        size_t tot = ((size + 2*GUARD + 63)/64)*64;
        base[w] = (char *)aligned_alloc(64, tot);
        memset(base[w], CANARY, tot);
    }
    void poison() {
        memset(ptr(0), POISON_A, size); memset(ptr(1), POISON_B, size);
    }
    void alloc(size_t n) { size = n; alloc1(0); alloc1(1); poison(); }
    void adopt(char *p, size_t n) {
        user = true; size = n; base[0] = p; alloc1(1); memcpy(ptr(1), p, n);
    }
    bool intact() const {
        for(int w = 0; w < 2; ++w)
        {
            if(!base[w] || (user && w == 0)) continue;
            for(size_t i = 0; i < GUARD; ++i)
                if((unsigned char)base[w][i] != CANARY ||
                   (unsigned char)base[w][GUARD+size+i] != CANARY) return false;
        }
        return true;
    }
    void repair() {
        for(int w = 0; w < 2; ++w)
        {
            if(!base[w] || (user && w == 0)) continue;
            memset(base[w], CANARY, GUARD); memset(base[w]+GUARD+size, CANARY, GUARD);
        }
    }
    long undefined() const {
        long n = 0;
        const char *a = ptr(0), *b = ptr(1);
        for(size_t i = 0; i < size; ++i) if(a[i] != b[i]) ++n;
        return n;
    }
    void settle() { memcpy(ptr(1), ptr(0), size); }
    void release() {
        for(int w = 0; w < 2; ++w)
        {
            if(base[w] && !(user && w == 0)) free(base[w]);
            base[w] = nullptr;
        }
    }
};

struct HData {
    long id; size_t size; Buf buf; bool alive = true; bool dying = false;
    struct starpu_variable_interface iface;
    starpu_codelet *redux_cl = nullptr, *init_cl = nullptr;
    std::map<int, Buf> replicas;       // private copies (reduction mode)
    bool redux_open = false;
    long acquired = 0; bool acq_w = false;
    std::vector<long> pend;            // ids of pending tasks in submission order
};

struct Access { HData *h; int mode; };

struct Task {
    long id; starpu_codelet *cl; std::vector<Access> acc;
    void *cl_arg = nullptr; size_t cl_arg_size = 0; bool cl_arg_free = false;
    int kind = 0;                      // 0 task, 1 copy, 2 deferred unregister
    std::vector<long> pred;            // conflicting tasks submitted earlier
    std::vector<Task *> succ;          // conflicting tasks submitted later
    long waits = 0;                    // how many of pred are still pending
    std::string name;
};

std::map<long, Task *> pending;
std::map<long, Task *> ready;           // pending tasks which wait for nothing
std::map<starpu_data_handle_t, HData *> handles;  // registered now
std::set<starpu_data_handle_t> dead_handles;
std::map<struct starpu_task *, Task *> built;
long next_h = 1, next_t = 1;
uint64_t rng = 88172645463325252ull;
int policy = 1, nworkers = 3;
bool inited = false;
FILE *logf = nullptr;
long nevents = 0, max_events = 2000000;
std::recursive_mutex mtx;
long nexec = 0, nundef = 0, ndirty = 0;

uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

void ev(const char *fmt, ...)
{
    ++nevents;
    if(!logf || nevents > max_events) return;
    va_list ap; va_start(ap, fmt); vfprintf(logf, fmt, ap); va_end(ap);
    fputc('\n', logf);
}

const char *mode_name(int m)
{
    if(m & STARPU_REDUX) return "X";
    if(m & STARPU_SCRATCH) return "S";
    bool r = m & STARPU_R, w = m & STARPU_W;
    if(r && w) return (m & STARPU_COMMUTE) ? "C" : "RW";
    if(w) return "W";
    return "R";
}

HData *find(starpu_data_handle_t p)
{
    auto it = handles.find(p);
    return it == handles.end() ? nullptr : it->second;
}

// A use of something that is not a live registration: report, then stop.
[[noreturn]] void misuse(const char *what, long id = 0)
{
    ev("{\"e\":\"misuse\",\"h\":%ld,\"w\":\"%s\"}", id, what);
    if(logf) fflush(logf);
    fprintf(stderr, "SHIM-MISUSE %s\n", what);
    fflush(stderr);
    _exit(86);
}

bool conflicts(const Task &a, const Task &b, HData *h)
{
    int ma = 0, mb = 0;
    bool ka = false, kb = false;
    for(auto &x: a.acc) if(x.h == h && !(x.mode & STARPU_SCRATCH)) { ma |= x.mode; ka = true; }
    for(auto &x: b.acc) if(x.h == h && !(x.mode & STARPU_SCRATCH)) { mb |= x.mode; kb = true; }
    if(!ka || !kb) return false;
    if(a.kind == 2 || b.kind == 2) return true;
    bool xa = ma & STARPU_REDUX, xb = mb & STARPU_REDUX;
    if(xa || xb) return !(xa && xb);
    bool wa = ma & STARPU_W, wb = mb & STARPU_W;
    if(!wa && !wb) return false;
    if((ma & STARPU_COMMUTE) && (mb & STARPU_COMMUTE)) return false;
    return true;
}

// A new task waits for all conflicting tasks submitted before
void admit(Task *t)
{
    for(auto &a: t->acc)
    {
        if(a.mode & STARPU_SCRATCH) continue;
        for(long id: a.h->pend)
        {
            if(id >= t->id) break;
            Task *q = pending[id];
            if(!conflicts(*q, *t, a.h)) continue;
            t->pred.push_back(id); q->succ.push_back(t); ++t->waits;
        }
    }
    pending[t->id] = t;
    if(!t->waits) ready[t->id] = t;
}

void retire(Task *t)
{
    for(Task *q: t->succ) if(--q->waits == 0) ready[q->id] = q;
    pending.erase(t->id); ready.erase(t->id);
}

void call(starpu_codelet *cl, void **bufs, void *arg)
{
    if(!cl->cpu_funcs[0]) misuse("task without a CPU implementation");
    cl->cpu_funcs[0](bufs, arg);
}

void make_iface(struct starpu_variable_interface *v, char *p, size_t n)
{
    memset(v, 0, sizeof(*v));
    v->id = STARPU_VARIABLE_INTERFACE_ID;
    v->ptr = (uintptr_t)p; v->dev_handle = (uintptr_t)p; v->offset = 0;
    v->elemsize = n;
}

void ensure(HData *h) { if(!h->buf.base[0]) h->buf.alloc(h->size); }

void run_small(starpu_codelet *cl, Buf *b0, Buf *b1, bool fresh)
{
    if(fresh) b0->poison();
    for(int w = 0; w < 2; ++w)
    {
        struct starpu_variable_interface v[2]; void *bufs[2] = {&v[0], &v[1]};
        make_iface(&v[0], b0->ptr(w), b0->size);
        if(b1) make_iface(&v[1], b1->ptr(w), b1->size);
        call(cl, bufs, nullptr);
    }
}

// Merge the private copies of a handle into its main value
extern std::map<HData *, bool> has_value;
void close_redux(HData *h, bool initialised)
{
    if(!h->redux_open) return;
    h->redux_open = false;
    std::vector<int> ids;
    for(auto &r: h->replicas) ids.push_back(r.first);
    for(size_t i = ids.size(); i > 1; --i) std::swap(ids[i-1], ids[rnd()%i]);
    ev("{\"e\":\"merge\",\"h\":%ld,\"n\":%ld}", h->id, (long)ids.size());
    if(!initialised)
    {
        has_value[h] = true;
        ensure(h);
        run_small(h->init_cl, &h->buf, nullptr, true);
    }
    for(int i: ids)
    {
        run_small(h->redux_cl, &h->buf, &h->replicas[i], false);
        h->replicas[i].release();
    }
    h->replicas.clear();
}
std::map<HData *, bool> has_value;  // main copy holds a value

void exec(Task *t)
{
    ++nexec;
    size_t n = t->acc.size();
    if(t->kind == 2)
    {
        HData *h = t->acc[0].h;
        ev("{\"e\":\"exe\",\"t\":%ld,\"eff\":[[0,0]]}", t->id);
        for(auto &r: h->replicas) r.second.release();
        h->buf.release(); h->alive = false;
        h->pend.erase(std::find(h->pend.begin(), h->pend.end(), t->id));
        retire(t); delete t;
        return;
    }
    // Bring every main copy up to date, choose the memory each access uses
    std::vector<Buf *> b(n); std::vector<Buf> scratch(n);
    for(size_t i = 0; i < n; ++i)
    {
        HData *h = t->acc[i].h; int m = t->acc[i].mode;
        if(m & STARPU_SCRATCH) { scratch[i].alloc(h->size); b[i] = &scratch[i]; continue; }
        if(m & STARPU_REDUX)
        {
            if(!h->redux_cl || !h->init_cl) misuse("REDUX without methods", h->id);
            int w = (int)(rnd() % nworkers);
            h->redux_open = true;
            if(!h->replicas.count(w))
            {
                h->replicas[w].alloc(h->size);
                run_small(h->init_cl, &h->replicas[w], nullptr, true);
            }
            b[i] = &h->replicas[w];
            continue;
        }
        close_redux(h, has_value[h]);
        if((m & STARPU_R) && !has_value[h])
        {
            bool also_w = false;   // the same datum may be passed for writing, too
            for(auto &a: t->acc) if(a.h == h && (a.mode & STARPU_W) && !(a.mode & STARPU_R)) also_w = true;
            if(!also_w) misuse("task reads a datum that was never written", h->id);
        }
        ensure(h); b[i] = &h->buf;
    }
    // What each access is allowed to see
    std::vector<int> mode(n, 0);       // union over accesses of the same memory
    for(size_t i = 0; i < n; ++i)
        for(size_t j = 0; j < n; ++j)
            if(b[i]->ptr() == b[j]->ptr())
            {
                int m = t->acc[j].mode;
                if(m & STARPU_REDUX) m = STARPU_RW;
                mode[i] |= m & (STARPU_RW|STARPU_SCRATCH);
            }
    for(size_t i = 0; i < n; ++i)
        if((mode[i] & STARPU_SCRATCH) || !(mode[i] & STARPU_R)) b[i]->poison();
    std::vector<std::string> before(n);
    std::vector<int> chg(n, 0), oob(n, 0);
    for(int w = 0; w < 2; ++w)
    {
        for(size_t i = 0; i < n; ++i) before[i].assign(b[i]->ptr(w), b[i]->size);
        std::vector<struct starpu_variable_interface> v(n ? n : 1);
        std::vector<void *> bufs(n ? n : 1);
        for(size_t i = 0; i < n; ++i)
        {
            make_iface(&v[i], b[i]->ptr(w), b[i]->size); bufs[i] = &v[i];
        }
        if(t->kind == 1) memcpy(b[0]->ptr(w), b[1]->ptr(w), std::min(b[0]->size, b[1]->size));
        else call(t->cl, bufs.data(), t->cl_arg);
        for(size_t i = 0; i < n; ++i)
            if(memcmp(before[i].data(), b[i]->ptr(w), b[i]->size)) chg[i] = 1;
    }
    for(size_t i = 0; i < n; ++i)
    {
        if(!b[i]->intact()) { oob[i] = 1; b[i]->repair(); }
        int m = t->acc[i].mode;
        if(oob[i] || (chg[i] && !(mode[i] & (STARPU_W|STARPU_SCRATCH)))) ++ndirty;
        if(!(m & STARPU_SCRATCH) && !(m & STARPU_REDUX) && (m & STARPU_W))
            has_value[t->acc[i].h] = true;
    }
    if(logf)
    {
        std::string s;
        for(size_t i = 0; i < n; ++i)
        {
            char tmp[64];
            snprintf(tmp, sizeof tmp, "%s[%d,%d]", i ? "," : "", chg[i], oob[i]);
            s += tmp;
        }
        ev("{\"e\":\"exe\",\"t\":%ld,\"eff\":[%s]}", t->id, s.c_str());
    }
    for(auto &s: scratch) s.release();
    for(auto &a: t->acc)
    {
        auto it = std::find(a.h->pend.begin(), a.h->pend.end(), t->id);
        if(it != a.h->pend.end()) a.h->pend.erase(it);
    }
    if(t->cl_arg_free) free(t->cl_arg);
    retire(t);
    delete t;
}

// Choose one runnable task of a set of candidates (all pending if null)
Task *choose(const std::set<long> *only)
{
    std::vector<Task *> r;
    size_t cap = 64;
    if(policy == 2)            // latest submitted first
    {
        for(auto it = ready.rbegin(); it != ready.rend(); ++it)
            if(!only || only->count(it->first)) return it->second;
        return nullptr;
    }
    for(auto &p: ready)
        if(!only || only->count(p.first))
        {
            if(policy == 0) return p.second;       // submission order
            r.push_back(p.second);
            if(r.size() >= cap && (rnd() & 7)) break;
        }
    if(r.empty()) return nullptr;
    return r[rnd() % r.size()];
}

void run_all()
{
    while(!pending.empty())
    {
        Task *t = choose(nullptr);
        if(!t) misuse("no runnable task");
        exec(t);
    }
}

// Execute just what the given handle's pending tasks require
void run_for(HData *h, bool write)
{
    std::set<long> need;
    std::vector<long> stack;
    Task probe; probe.id = next_t; probe.kind = 0;
    probe.acc.push_back({h, write ? STARPU_RW : STARPU_R});
    for(long id: h->pend) if(conflicts(*pending[id], probe, h)) stack.push_back(id);
    while(!stack.empty())
    {
        long id = stack.back(); stack.pop_back();
        if(!need.insert(id).second) continue;
        for(long q: pending[id]->pred) if(pending.count(q)) stack.push_back(q);
    }
    while(!need.empty())
    {
        Task *t = choose(&need);
        if(!t) misuse("no runnable task");
        need.erase(t->id);
        exec(t);
    }
}

void enqueue(Task *t)
{
    t->id = next_t++;
    for(auto &a: t->acc)
    {
        if(!a.h->alive || a.h->dying) misuse("task submitted with a released handle", a.h->id);
        auto &p = a.h->pend;
        if(!(a.mode & STARPU_SCRATCH) && (p.empty() || p.back() != t->id)) p.push_back(t->id);
    }
    admit(t);
    if(logf)
    {
        std::string s;
        for(size_t i = 0; i < t->acc.size(); ++i)
        {
            char tmp[64];
            snprintf(tmp, sizeof tmp, "%s[%ld,\"%s\"]", i ? "," : "", t->acc[i].h->id, mode_name(t->acc[i].mode));
            s += tmp;
        }
        ev("{\"e\":\"%s\",\"t\":%ld,\"n\":\"%s\",\"b\":[%s]}", t->kind == 2 ? "unregsub" : "sub",
           t->id, t->name.c_str(), s.c_str());
    }
    if(policy == 3) run_all();
}

Task *parse(starpu_codelet *cl, va_list ap)
{
    Task *t = new Task; t->cl = cl; t->name = cl && cl->name ? cl->name : "?";
    std::string packed; int npacked = 0; bool have_packed = false;
    int arg;
    while((arg = va_arg(ap, int)) != 0)
    {
        if(arg < (1 << STARPU_MODE_SHIFT))
        {
            auto hp = va_arg(ap, starpu_data_handle_t);
            HData *h = find(hp);
            if(!h) misuse("task submitted with an unknown handle");
            t->acc.push_back({h, arg});
            continue;
        }
        switch(arg)
        {
            case STARPU_VALUE: {
                void *p = va_arg(ap, void *); size_t n = va_arg(ap, size_t);
                packed.append((char *)&n, sizeof n); packed.append((char *)p, n);
                ++npacked; have_packed = true; break; }
            case STARPU_CL_ARGS:
            case STARPU_CL_ARGS_NFREE:
                t->cl_arg = va_arg(ap, void *); t->cl_arg_size = va_arg(ap, size_t);
                t->cl_arg_free = (arg == STARPU_CL_ARGS); break;
            case STARPU_FLOPS: (void)va_arg(ap, double); break;
            case STARPU_PRIORITY: (void)va_arg(ap, int); break;
            case STARPU_EXECUTE_ON_NODE: (void)va_arg(ap, int); break;
            case STARPU_EXECUTE_ON_WORKER: (void)va_arg(ap, int); break;
            case STARPU_TASK_FILE: (void)va_arg(ap, const char *); break;
            case STARPU_TASK_LINE: (void)va_arg(ap, int); break;
            case STARPU_NAME: t->name = va_arg(ap, const char *); break;
            case STARPU_TAG_ONLY:
            case STARPU_TAG: (void)va_arg(ap, starpu_tag_t); break;
            default: fprintf(stderr, "SHIM-UNSUPPORTED argument %d\n", arg >> STARPU_MODE_SHIFT); _exit(87);
        }
    }
    if(have_packed)
    {
        std::string all((char *)&npacked, sizeof npacked); all += packed;
        t->cl_arg = malloc(all.size()); memcpy(t->cl_arg, all.data(), all.size());
        t->cl_arg_size = all.size(); t->cl_arg_free = true;
    }
    return t;
}

void unregister(starpu_data_handle_t p)
{
    HData *h = find(p);
    if(!h || h->dying) misuse("release of an unknown or released handle", h ? h->id : 0);
    run_for(h, true);
    // readers of the datum have to finish as well
    while(!h->pend.empty())
    {
        std::set<long> s(h->pend.begin(), h->pend.end());
        Task *t = choose(&s);
        if(!t) { t = choose(nullptr); }
        exec(t);
    }
    if(h->redux_open) close_redux(h, has_value[h]);
    ev("{\"e\":\"unreg\",\"h\":%ld,\"acq\":%ld}", h->id, h->acquired);
    if(h->acquired) misuse("release of an acquired handle", h->id);
    h->buf.release(); h->alive = false;
    handles.erase(p);
}

} // namespace

extern "C" {

int starpu_conf_init(struct starpu_conf *c)
{
    memset(c, 0, sizeof *c);
    return 0;
}
int starpu_initialize(struct starpu_conf *, int *, char ***);
static int do_init()
{
    if(const char *s = getenv("NNV_SEED")) { rng = strtoull(s, 0, 10)*0x9E3779B97F4A7C15ull + 0x1234567ull; if(!rng) rng = 1; for(int i=0;i<20;++i) rnd(); }
    if(const char *s = getenv("NNV_POLICY")) policy = atoi(s);
    if(const char *s = getenv("NNV_WORKERS")) nworkers = atoi(s);
    if(const char *s = getenv("NNV_LOG")) { if(!logf) logf = fopen(s, "a"); }
    inited = true;
    ev("{\"e\":\"init\"}");
    return 0;
}
int starpu_init(struct starpu_conf *) { return do_init(); }
int starpu_initialize(struct starpu_conf *, int *, char ***) { return do_init(); }
void starpu_shutdown(void)
{
    std::lock_guard<std::recursive_mutex> g(mtx);
    if(!inited) return;
    run_all();
    long live = 0;
    for(auto &p: handles) if(!p.second->dying) ++live;
    ev("{\"e\":\"shutdown\",\"live\":%ld}", live);
    inited = false;
    if(logf) { fclose(logf); logf = nullptr; }
}
void starpu_pause(void) {}
void starpu_resume(void) {}
unsigned starpu_worker_get_count(void) { return nworkers; }
int starpu_worker_get_count_by_type(enum starpu_worker_archtype type)
{ return type == STARPU_CPU_WORKER ? nworkers : 0; }
void starpu_fxt_autostart_profiling(int) {}
void starpu_fxt_start_profiling(void) {}
void starpu_fxt_stop_profiling(void) {}

void starpu_variable_data_register(starpu_data_handle_t *out, int home, uintptr_t ptr, size_t size)
{
    std::lock_guard<std::recursive_mutex> g(mtx);
    HData *h = new HData; h->id = next_h++; h->size = size;
    if(home >= 0 && ptr) { h->buf.adopt((char *)ptr, size); has_value[h] = true; }
    *out = reinterpret_cast<starpu_data_handle_t>(h);
    handles[*out] = h;
    ev("{\"e\":\"reg\",\"h\":%ld,\"v\":%d}", h->id, home >= 0 ? 1 : 0);
}
void starpu_data_set_reduction_methods(starpu_data_handle_t p, struct starpu_codelet *redux, struct starpu_codelet *init)
{
    HData *h = find(p); if(!h) misuse("unknown handle");
    h->redux_cl = redux; h->init_cl = init;
}
void starpu_data_unregister(starpu_data_handle_t p)
{ std::lock_guard<std::recursive_mutex> g(mtx); unregister(p); }
void starpu_data_unregister_no_coherency(starpu_data_handle_t p)
{ std::lock_guard<std::recursive_mutex> g(mtx); unregister(p); }
void starpu_data_unregister_submit(starpu_data_handle_t p)
{
    std::lock_guard<std::recursive_mutex> g(mtx);
    HData *h = find(p);
    if(!h || h->dying) misuse("release of an unknown or released handle", h ? h->id : 0);
    Task *t = new Task; t->cl = nullptr; t->kind = 2; t->name = "unregister";
    t->acc.push_back({h, STARPU_RW});
    enqueue(t);
    h->dying = true;
    handles.erase(p);
}
int starpu_data_acquire(starpu_data_handle_t p, enum starpu_data_access_mode m)
{
    std::lock_guard<std::recursive_mutex> g(mtx);
    HData *h = find(p); if(!h || h->dying) misuse("acquire of an unknown or released handle");
    if(policy == 1 && (rnd() & 1)) { for(int k = rnd() % 4; k > 0 && !pending.empty(); --k) exec(choose(nullptr)); }
    run_for(h, m & STARPU_W);
    if(h->redux_open) { close_redux(h, has_value[h]); has_value[h] = true; }
    if((m & STARPU_R) && !has_value[h]) misuse("acquire for reading of a datum that was never written", h->id);
    ensure(h);
    bool wonly = (m & STARPU_W) && !(m & STARPU_R);
    long und = wonly ? 0 : h->buf.undefined();
    nundef += und;
    ev("{\"e\":\"acq\",\"h\":%ld,\"m\":\"%s\",\"u\":%ld}", h->id, mode_name(m), und);
    if(wonly) h->buf.poison();
    h->acq_w = m & STARPU_W;
    if(m & STARPU_W) has_value[h] = true;
    ++h->acquired;
    return 0;
}
int starpu_data_acquire_cb(starpu_data_handle_t p, enum starpu_data_access_mode m, void (*cb)(void *), void *arg)
{ int r = starpu_data_acquire(p, m); cb(arg); return r; }
void starpu_data_release(starpu_data_handle_t p)
{
    std::lock_guard<std::recursive_mutex> g(mtx);
    HData *h = find(p); if(!h || h->acquired <= 0) misuse("release without acquire");
    --h->acquired;
    ev("{\"e\":\"rel\",\"h\":%ld,\"oob\":%d}", h->id, h->buf.intact() ? 0 : 1);
    h->buf.repair();
    if(h->acq_w) h->buf.settle();
}
void *starpu_data_get_local_ptr(starpu_data_handle_t p)
{ HData *h = find(p); if(!h) misuse("unknown handle"); return h->buf.base[0] ? h->buf.ptr() : nullptr; }
int starpu_data_cpy(starpu_data_handle_t dst, starpu_data_handle_t src, int async, void (*cb)(void *), void *arg)
{
    std::lock_guard<std::recursive_mutex> g(mtx);
    HData *d = find(dst), *s = find(src); if(!d || !s) misuse("copy with an unknown handle");
    Task *t = new Task; t->cl = nullptr; t->kind = 1; t->name = "data_cpy";
    t->acc.push_back({d, STARPU_W}); t->acc.push_back({s, STARPU_R});
    if(d->size != s->size) misuse("copy between data of different sizes");
    enqueue(t);
    if(!async) run_for(d, true);
    if(cb) cb(arg);
    return 0;
}
int starpu_task_insert(struct starpu_codelet *cl, ...)
{
    std::lock_guard<std::recursive_mutex> g(mtx);
    va_list ap; va_start(ap, cl); Task *t = parse(cl, ap); va_end(ap);
    if(!cl->cpu_funcs[0] || !(cl->where & STARPU_CPU)) { delete t; return -ENODEV; }
    enqueue(t);
    return 0;
}
struct starpu_task *starpu_task_build(struct starpu_codelet *cl, ...)
{
    va_list ap; va_start(ap, cl); Task *t = parse(cl, ap); va_end(ap);
    auto *s = (struct starpu_task *)calloc(1, sizeof(struct starpu_task));
    s->cl = cl; built[s] = t;
    return s;
}
int starpu_task_submit(struct starpu_task *s)
{
    std::lock_guard<std::recursive_mutex> g(mtx);
    Task *t = built[s]; built.erase(s);
    if(s->cl_arg) { t->cl_arg = s->cl_arg; t->cl_arg_size = s->cl_arg_size; t->cl_arg_free = s->cl_arg_free; }
    free(s);
    enqueue(t);
    return 0;
}
int starpu_task_wait_for_all(void)
{ std::lock_guard<std::recursive_mutex> g(mtx); run_all(); ev("{\"e\":\"wait\"}"); return 0; }
int starpu_task_nsubmitted(void)
{
    std::lock_guard<std::recursive_mutex> g(mtx);
    if(pending.empty()) { ev("{\"e\":\"wait\"}"); return 0; }
    size_t keep = pending.size() > 3 ? 2 : pending.size() - 1;
    while(pending.size() > keep) exec(choose(nullptr));
    return (int)pending.size();
}
int starpu_task_nready(void) { return starpu_task_nsubmitted(); }
uint32_t starpu_hash_crc32c_be_n(const void *, size_t, uint32_t h) { return h*31+7; }

// Control from the driver (ctypes / extern "C")
int nnv_present(void) { return 1; }
long nnv_undef(void) { long u = nundef; nundef = 0; return u; }
long nnv_dirty(void) { long u = ndirty; ndirty = 0; return u; }
long nnv_pending(void) { long n = 0; for(auto &p: pending) if(p.second->kind != 2) ++n; return n; }
long nnv_pending_all(void) { return (long)pending.size(); }
long nnv_live(void) { return (long)handles.size(); }
long nnv_executed(void) { return nexec; }
void nnv_seed(uint64_t s) { rng = s*0x9E3779B97F4A7C15ull + 0x1234567ull; if(!rng) rng = 1; for(int i=0;i<20;++i) rnd(); }
void nnv_policy(int p) { policy = p; }
void nnv_workers(int w) { nworkers = w; }
void nnv_log(const char *path) { if(logf) fclose(logf); logf = nullptr; if(path && *path) logf = fopen(path, "a"); }
void nnv_mark(const char *what) { ev("{\"e\":\"mark\",\"w\":\"%s\"}", what); }
void nnv_event(const char *json) { ev("%s", json); }
long nnv_next(void) { return next_h; }
// number of the handle behind a pointer (0: none), and whether a numbered handle is alive
long nnv_hid(void *p) { HData *h = p ? find((starpu_data_handle_t)p) : nullptr; return h ? h->id : 0; }
int nnv_alive(long id) { for(auto &p: handles) if(p.second->id == id) return !p.second->dying; return 0; }
void nnv_run_some(int k) { std::lock_guard<std::recursive_mutex> g(mtx); while(k-- > 0 && !pending.empty()) exec(choose(nullptr)); }
}
