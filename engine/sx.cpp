// Symbolic executor for LLVM IR: explores every feasible path of one entry function, with the bytes the
// harness asked for as free variables, and decides branches and assertions with a solver (Z3) and an exact
// decision procedure for constraints on single bytes.
#include "ir.h"
#include <z3.h>
#include <atomic>
#include <functional>
#include <set>
#include <unordered_set>
#include <cstdarg>
#include <ctime>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ options and shared statistics
static int opt_procs = 8, opt_samples = 64, opt_maxviol = 6;
static u64 opt_steps = 20000000, opt_maxpaths = 0;
static u32 opt_depth = 3000;
static double opt_time = 600, opt_slow = 0, opt_start;
static bool opt_cross = false;
static u32 opt_points = 64;
static std::string opt_out, opt_entry, opt_ll;
static int out_fd = -1;

struct Shm {
    std::atomic<int> active, workers;
    std::atomic<u64> paths, dead, forks, instrs, branches, asserts, asserts_const, asserts_solver, asserts_domain;
    std::atomic<u64> z3q, z3sat, z3unsat, z3ns, z3cache, domq, domsat, domunsat, concretized, crossq, crossbad;
    std::atomic<u64> violations, errors, maxdepth, maxsteps, samples, incomplete, objs, maxresid, casserts;
    std::atomic<u8> cover[4096];
    std::atomic<u8> fn[1 << 16];
    std::atomic<u8> dbg[1 << 22];
};
static Shm *shm;

static void emit(const std::string &line) {
    std::string l = line + "\n";
    if (write(out_fd, l.data(), l.size()) != (ssize_t)l.size()) _exit(3);
}
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}

// ------------------------------------------------------------------ byte domains
struct Dom { u64 b[4]; int cnt; u32 id; std::unordered_map<u32, Z3_ast> z; bool has(unsigned v) const { return b[v >> 6] >> (v & 63) & 1; } };
static std::unordered_map<u64, std::vector<Dom *>> dom_tab;
static u32 dom_next = 0;
static Dom *mk_dom(const u64 *b) {
    u64 h = b[0] * 0x9E3779B97F4A7C15ull; h ^= (h >> 31) + b[1] * 0xC2B2AE3D27D4EB4Full; h ^= (h >> 29) + b[2] * 0x165667B19E3779F9ull; h ^= (h >> 27) + b[3] * 0xff51afd7ed558ccdull;
    auto &v = dom_tab[h];
    for (auto d : v) if (!memcmp(d->b, b, 32)) return d;
    Dom *d = new Dom; memcpy(d->b, b, 32); d->cnt = 0; for (int i = 0; i < 4; i++) d->cnt += __builtin_popcountll(b[i]);
    d->id = dom_next++; v.push_back(d); return d;
}
static Dom *dom_full() { static Dom *d = nullptr; if (!d) { u64 b[4] = {~0ull, ~0ull, ~0ull, ~0ull}; d = mk_dom(b); } return d; }
static int dom_first(const Dom *d) { for (int i = 0; i < 4; i++) if (d->b[i]) return i * 64 + __builtin_ctzll(d->b[i]); return -1; }

// ------------------------------------------------------------------ memory
struct Obj { int refs; u64 size; u8 *data; Expr **sym; bool ro; };
struct Chunk { int refs; Obj *o[64]; };
static Obj *obj_new(u64 n) { Obj *o = new Obj{1, n, (u8 *)calloc(n ? n : 1, 1), nullptr, false}; if (!o->data) throw Unsupported("out of memory"); return o; }
static void obj_unref(Obj *o) { if (o && --o->refs == 0) { free(o->data); free(o->sym); delete o; } }
static Obj *obj_copy(Obj *o) {
    Obj *n = new Obj{1, o->size, (u8 *)malloc(o->size ? o->size : 1), nullptr, o->ro}; memcpy(n->data, o->data, o->size);
    if (o->sym) { n->sym = (Expr **)malloc(o->size * sizeof(Expr *)); memcpy(n->sym, o->sym, o->size * sizeof(Expr *)); }
    return n;
}
// an address: the number of an object and an offset in it
static const unsigned OFFB = 36;
static u32 objid(u64 a) { return (u32)(a >> OFFB); }
static u64 objoff(u64 a) { return a & ((1ull << OFFB) - 1); }
static u64 objaddr(u64 id) { if (id >> 27) throw Unsupported("too many objects"); return id << OFFB; }
struct Mem {
    std::vector<Chunk *> c; u32 next = 1;
    Mem() {}
    Mem(const Mem &m) : c(m.c), next(m.next) { for (auto x : c) if (x) x->refs++; }
    Mem &operator=(const Mem &) = delete;
    static void unref(Chunk *x) { if (x && --x->refs == 0) { for (auto o : x->o) obj_unref(o); delete x; } }
    ~Mem() { for (auto x : c) unref(x); }
    Chunk *wchunk(u32 i) {
        Chunk *&x = c[i];
        if (!x) { x = new Chunk; x->refs = 1; memset(x->o, 0, sizeof x->o); }
        else if (x->refs > 1) { Chunk *n = new Chunk; n->refs = 1; for (int k = 0; k < 64; k++) { n->o[k] = x->o[k]; if (n->o[k]) n->o[k]->refs++; } x->refs--; x = n; }
        return x;
    }
    u32 add(Obj *o) { u32 id = next++; if (id / 64 >= c.size()) c.resize(id / 64 + 1, nullptr); wchunk(id / 64)->o[id % 64] = o; return id; }
    void addat(u32 id, Obj *o) { if (id / 64 >= c.size()) c.resize(id / 64 + 1, nullptr); wchunk(id / 64)->o[id % 64] = o; if (id >= next) next = id + 1; }
    Obj *get(u32 id) const { if (id / 64 >= c.size() || !c[id / 64]) return nullptr; return c[id / 64]->o[id % 64]; }
    Obj *wget(u32 id) {
        if (!get(id)) return nullptr;
        Chunk *x = wchunk(id / 64); Obj *&o = x->o[id % 64];
        if (o->refs > 1) { Obj *n = obj_copy(o); o->refs--; o = n; }
        return o;
    }
    void del(u32 id) {
        Chunk *x = wchunk(id / 64); obj_unref(x->o[id % 64]); x->o[id % 64] = nullptr;
        bool any = false; for (auto o : x->o) if (o) { any = true; break; }
        if (!any && (id / 64 + 1) * 64 < next) { unref(x); c[id / 64] = nullptr; }
    }
};

// ------------------------------------------------------------------ states
struct Frame { int refs; Func *f; u32 block, pc; std::vector<Val> regs; std::vector<u32> allocas; Inst *call; bool resume = false; };
struct State {
    std::vector<Frame *> fr;
    Mem mem;
    Dom *dom[MAXV];
    u64 fixed[MAXV / 64];
    u8 model[MAXV];
    int nv = 0;
    std::vector<Expr *> resid;
    std::vector<std::pair<u8, Val>> obs; // width, value
    u64 steps = 0; u32 nforks = 0;
    // threads: the current one, whether another may run before an atomic access, thread-local variables
    int choosing = -1; u32 tid = 0, points = 0, preempts = 0; bool armed = false, at = false;
    std::map<std::pair<u32, u32>, u32> tls; std::set<int> schedv; std::map<u32, std::vector<Frame *>> parked;
    State() { memset(fixed, 0, sizeof fixed); memset(model, 0, sizeof model); for (auto &d : dom) d = dom_full(); }
    State(const State &s) : fr(s.fr), mem(s.mem), nv(s.nv), resid(s.resid), obs(s.obs), steps(s.steps), nforks(s.nforks), choosing(s.choosing), tid(s.tid), points(s.points), preempts(s.preempts), armed(s.armed), at(s.at), tls(s.tls), schedv(s.schedv), parked(s.parked) { for (auto &p : parked) for (auto f : p.second) f->refs++;
        for (auto f : fr) f->refs++;
        memcpy(dom, s.dom, sizeof dom); memcpy(fixed, s.fixed, sizeof fixed); memcpy(model, s.model, sizeof model);
    }
    ~State() { for (auto f : fr) if (--f->refs == 0) delete f; for (auto &p : parked) for (auto f : p.second) if (--f->refs == 0) delete f; }
    Frame *top() {
        Frame *&f = fr.back();
        if (f->refs > 1) { Frame *n = new Frame(*f); n->refs = 1; f->refs--; f = n; }
        return f;
    }
};
static State *cur = nullptr; // the state eval_expr results are cached for
static void use(State &st) { if (cur != &st) { cur = &st; g_epoch++; } }
static u128 ev(State &st, Expr *e) { use(st); return eval_expr(e, st.model); }
static void setmodel(State &st, const u8 *m) { memcpy(st.model, m, MAXV); g_epoch++; cur = &st; }

struct Violation { std::string kind, msg; };
struct PathDead {};
struct PathEnd {};

// ------------------------------------------------------------------ solver
static Z3_context zc; static Z3_solver zs;
static Z3_sort zsort8; static std::vector<Z3_ast> zvars;
static void z3_err(Z3_context c, Z3_error_code e) { throw Unsupported(std::string("z3: ") + Z3_get_error_msg(c, e)); }
static void z3_init() {
    Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); Z3_set_error_handler(zc, z3_err);
    zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs);
    { Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), 100000); Z3_solver_set_params(zc, zs, p); Z3_params_dec_ref(zc, p); }
    zsort8 = Z3_mk_bv_sort(zc, 8);
    for (int i = 0; i < MAXV; i++) { char b[16]; snprintf(b, 16, "b%d", i); zvars.push_back(Z3_mk_const(zc, Z3_mk_string_symbol(zc, b), zsort8)); }
}
static Z3_ast z3c(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(zc, (u64)v, Z3_mk_bv_sort(zc, w));
    return Z3_mk_concat(zc, Z3_mk_unsigned_int64(zc, (u64)(v >> 64), Z3_mk_bv_sort(zc, w - 64)), Z3_mk_unsigned_int64(zc, (u64)v, Z3_mk_bv_sort(zc, 64)));
}
static Z3_ast tozb(Expr *e); // as Bool, for width-1
static Z3_ast toz(Expr *e) {
    if (e->z) return (Z3_ast)e->z;
    Z3_ast r;
    switch (e->op) {
    case E_CONST: r = z3c(e->cv, e->w); break;
    case E_VAR: r = zvars[e->aux]; break;
    case E_ADD: r = Z3_mk_bvadd(zc, toz(e->a), toz(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(zc, toz(e->a), toz(e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(zc, toz(e->a), toz(e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(zc, toz(e->a), toz(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(zc, toz(e->a), toz(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(zc, toz(e->a), toz(e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(zc, toz(e->a), toz(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(zc, toz(e->a), toz(e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(zc, toz(e->a), toz(e->b)); break;
    case E_AND: r = Z3_mk_bvand(zc, toz(e->a), toz(e->b)); break;
    case E_OR: r = Z3_mk_bvor(zc, toz(e->a), toz(e->b)); break;
    case E_XOR: r = Z3_mk_bvxor(zc, toz(e->a), toz(e->b)); break;
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = Z3_mk_ite(zc, tozb(e), z3c(1, 1), z3c(0, 1)); break;
    case E_ITE: r = Z3_mk_ite(zc, tozb(e->a), toz(e->b), toz(e->c)); break;
    case E_SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, toz(e->a)); break;
    case E_EXTRACT: r = Z3_mk_extract(zc, e->aux + e->w - 1, e->aux, toz(e->a)); break;
    case E_CONCAT: r = Z3_mk_concat(zc, toz(e->a), toz(e->b)); break;
    default: throw Unsupported("z3 op");
    }
    e->z = r; return r;
}
static Z3_ast tozb(Expr *e) {
    switch (e->op) {
    case E_EQ: return Z3_mk_eq(zc, toz(e->a), toz(e->b));
    case E_ULT: return Z3_mk_bvult(zc, toz(e->a), toz(e->b));
    case E_ULE: return Z3_mk_bvule(zc, toz(e->a), toz(e->b));
    case E_SLT: return Z3_mk_bvslt(zc, toz(e->a), toz(e->b));
    case E_SLE: return Z3_mk_bvsle(zc, toz(e->a), toz(e->b));
    case E_AND: { Z3_ast x[2] = {tozb(e->a), tozb(e->b)}; return Z3_mk_and(zc, 2, x); }
    case E_OR: { Z3_ast x[2] = {tozb(e->a), tozb(e->b)}; return Z3_mk_or(zc, 2, x); }
    case E_XOR: if (isc(e->b)) return Z3_mk_not(zc, tozb(e->a)); return Z3_mk_xor(zc, tozb(e->a), tozb(e->b));
    case E_CONST: return e->cv ? Z3_mk_true(zc) : Z3_mk_false(zc);
    default: return Z3_mk_eq(zc, toz(e), z3c(1, 1));
    }
}
static Z3_ast domz(Dom *d, u32 v) {
    auto it = d->z.find(v); if (it != d->z.end()) return it->second;
    // a decision tree over the bits, skipping those that do not matter
    std::map<std::pair<int, std::vector<bool>>, Z3_ast> memo;
    std::function<Z3_ast(int, const std::vector<bool> &)> go = [&](int bit, const std::vector<bool> &t) -> Z3_ast {
        bool all = true, any = false; for (bool x : t) { all &= x; any |= x; }
        if (all) return Z3_mk_true(zc);
        if (!any) return Z3_mk_false(zc);
        auto it = memo.find({bit, t}); if (it != memo.end()) return it->second;
        std::vector<bool> lo(t.begin(), t.begin() + t.size() / 2), hi(t.begin() + t.size() / 2, t.end());
        Z3_ast r;
        if (lo == hi) r = go(bit - 1, lo);
        else r = Z3_mk_ite(zc, Z3_mk_eq(zc, Z3_mk_extract(zc, bit, bit, zvars[v]), z3c(1, 1)), go(bit - 1, hi), go(bit - 1, lo));
        memo[{bit, t}] = r; return r;
    };
    std::vector<bool> t(256); for (int i = 0; i < 256; i++) t[i] = d->has(i);
    Z3_ast r = go(7, t);
    d->z[v] = r; return r;
}
struct CRes { bool sat; std::vector<u8> vals; };
struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<u32>, CRes, VecHash> qcache;

static u8 g_om[MAXV]; // the model of the side just found feasible

// is the path condition (relevant slice) plus e satisfiable?  On yes, g_om gets a full model.
static bool z3_check(State &st, Expr *e) {
    u64 vs[MAXV / 64];
    for (int i = 0; i < MAXV / 64; i++) vs[i] = e->sup->w[i];
    std::vector<Expr *> sl; std::vector<bool> in(st.resid.size(), false);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t k = 0; k < st.resid.size(); k++) if (!in[k]) {
            const Sup *s = st.resid[k]->sup; bool hit = false;
            for (int i = 0; i < MAXV / 64; i++) if (s->w[i] & vs[i] & ~st.fixed[i]) { hit = true; break; }
            if (hit) { in[k] = true; ch = true; sl.push_back(st.resid[k]); for (int i = 0; i < MAXV / 64; i++) vs[i] |= s->w[i]; }
        }
    }
    std::vector<u32> vars;
    for (int i = 0; i < MAXV; i++) if (vs[i / 64] >> (i % 64) & 1) vars.push_back(i);
    std::sort(sl.begin(), sl.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
    std::vector<u32> key; key.push_back(e->id); for (auto x : sl) key.push_back(x->id); key.push_back(~0u); for (u32 v : vars) key.push_back(st.dom[v]->id);
    auto it = qcache.find(key);
    if (it == qcache.end()) {
        double t0 = now();
        Z3_solver_reset(zc, zs);
        Z3_solver_assert(zc, zs, tozb(e));
        for (auto x : sl) Z3_solver_assert(zc, zs, tozb(x));
        for (u32 v : vars) if (st.dom[v]->cnt < 256) Z3_solver_assert(zc, zs, domz(st.dom[v], v));
        Z3_lbool r = Z3_solver_check(zc, zs);
        shm->z3q++;
        if (opt_slow > 0 && now() - t0 > opt_slow) { static int k = 0; if (k++ < 5) fprintf(stderr, "slow query %.2f s, %zu bytes:\n%s\n%s\n", now() - t0, vars.size(), show(e, 30).c_str(), Z3_solver_to_string(zc, zs)); }
        CRes c;
        if (r == Z3_L_TRUE) {
            c.sat = true; shm->z3sat++;
            Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
            for (u32 v : vars) {
                Z3_ast o; u64 x = 0;
                if (!Z3_model_eval(zc, m, zvars[v], true, &o)) throw Unsupported("z3 model");
                Z3_get_numeral_uint64(zc, o, (uint64_t *)&x); c.vals.push_back((u8)x);
            }
            Z3_model_dec_ref(zc, m);
        } else if (r == Z3_L_FALSE) { c.sat = false; shm->z3unsat++; }
        else throw Unsupported("z3 answered unknown");
        shm->z3ns += (u64)((now() - t0) * 1e9);
        if (qcache.size() > 400000) qcache.clear();
        it = qcache.emplace(key, c).first;
    } else shm->z3cache++;
    if (!it->second.sat) return false;
    memcpy(g_om, st.model, MAXV);
    for (size_t i = 0; i < vars.size(); i++) g_om[vars[i]] = it->second.vals[i];
    return true;
}

static TT *tt_of(Expr *e) { // width 1, single variable
    if (e->tt) return e->tt;
    static u8 tmp[MAXV]; TT *t = new TT; memset(t, 0, sizeof *t);
    int v = e->sup->single; cur = nullptr;
    for (int i = 0; i < 256; i++) { g_epoch++; tmp[v] = (u8)i; if (eval_expr(e, tmp)) t->b[i >> 6] |= 1ull << (i & 63); }
    g_epoch++;
    return e->tt = t;
}
static inline bool subfixed(State &st, const Sup *s) { for (int i = 0; i < MAXV / 64; i++) if (s->w[i] & ~st.fixed[i]) return false; return true; }
// number of unfixed variables (up to 2), and the first one
static int unfixed(State &st, const Sup *s, int &v) {
    int n = 0;
    for (int i = 0; i < MAXV / 64; i++) { u64 x = s->w[i] & ~st.fixed[i]; if (x) { n += __builtin_popcountll(x); if (n && v < 0) v = i * 64 + __builtin_ctzll(x); } }
    return n;
}
// truth table over variable v with the others (fixed) taken from the model
static void tt_fixed(State &st, Expr *e, int v, u64 *b) {
    if (e->sup->count == 1) { memcpy(b, tt_of(e)->b, 32); return; }
    u8 save = st.model[v]; memset(b, 0, 32); cur = nullptr;
    for (int i = 0; i < 256; i++) if (st.dom[v]->has(i)) { g_epoch++; st.model[v] = (u8)i; if (eval_expr(e, st.model)) b[i >> 6] |= 1ull << (i & 63); }
    st.model[v] = save; g_epoch++;
}
static Expr *nota(Expr *e, Expr *&b) { // not(a or b) as conjuncts
    if (e->op == E_XOR && isc(e->b) && e->w == 1 && e->a->op == E_OR) { b = mk_not(e->a->b); return mk_not(e->a->a); }
    if (e->op == E_AND && e->w == 1) { b = e->b; return e->a; }
    return nullptr;
}
static Expr *ora(Expr *e, Expr *&b) {
    if (e->op == E_XOR && isc(e->b) && e->w == 1 && e->a->op == E_AND) { b = mk_not(e->a->b); return mk_not(e->a->a); }
    if (e->op == E_OR && e->w == 1) { b = e->b; return e->a; }
    return nullptr;
}
static void conj(Expr *e, std::vector<Expr *> &o) { Expr *b, *a = nota(e, b); if (a) { conj(a, o); conj(b, o); } else o.push_back(e); }

// a constraint as a disjunction of statements about one byte each, if it is one
struct Lit { int v; u64 b[4]; };
struct Clause { bool ok = true; std::vector<Lit> l; };
static void clause_add(Expr *e, Clause &c) {
    if (isc(e)) { if (e->cv) c.ok = false; return; }
    Expr *b, *a = ora(e, b);
    if (a) { clause_add(a, c); if (c.ok) clause_add(b, c); return; }
    if (e->sup->count != 1) { c.ok = false; return; }
    int v = e->sup->single; TT *t = tt_of(e);
    for (auto &x : c.l) if (x.v == v) { for (int i = 0; i < 4; i++) x.b[i] |= t->b[i]; return; }
    Lit x; x.v = v; memcpy(x.b, t->b, 32); c.l.push_back(x);
}
static Clause &clause_of(Expr *e) {
    static std::unordered_map<Expr *, Clause *> tab;
    Clause *&c = tab[e]; if (!c) { c = new Clause; clause_add(e, *c); }
    return *c;
}
// Are these narrowings of bytes consistent with the constraints? 1 yes (g_om is a model), 0 no, -1 cannot tell
static int prop_check(State &st, std::map<int, std::array<u64, 4>> &d) {
    auto bits = [&](int v) -> const u64 * { auto it = d.find(v); return it == d.end() ? st.dom[v]->b : it->second.data(); };
    if (!st.resid.empty()) for (int round = 0; round < 8; round++) {
        bool ch = false;
        for (auto r : st.resid) {
            Clause &c = clause_of(r); if (!c.ok) continue;
            Lit *u = nullptr; int n = 0;
            for (auto &x : c.l) { const u64 *b = bits(x.v); if ((b[0] & x.b[0]) | (b[1] & x.b[1]) | (b[2] & x.b[2]) | (b[3] & x.b[3])) { u = &x; if (++n > 1) break; } }
            if (n == 0) return 0;
            if (n == 1) {
                const u64 *b = bits(u->v); std::array<u64, 4> nb; bool same = true;
                for (int i = 0; i < 4; i++) { nb[i] = b[i] & u->b[i]; same &= nb[i] == b[i]; }
                if (!same) { d[u->v] = nb; ch = true; }
            }
        }
        if (!ch) break;
    }
    u8 m[MAXV]; memcpy(m, st.model, MAXV); Sup touched; memset(&touched, 0, sizeof touched);
    for (auto &x : d) if (!(x.second[m[x.first] >> 6] >> (m[x.first] & 63) & 1)) {
        for (int i = 0; i < 4; i++) if (x.second[i]) { m[x.first] = (u8)(i * 64 + __builtin_ctzll(x.second[i])); break; }
        touched.w[x.first / 64] |= 1ull << (x.first % 64);
    }
    for (int round = 0; round < 6; round++) {
        Expr *bad = nullptr; cur = nullptr; g_epoch++;
        for (auto r : st.resid) {
            bool hit = false; for (int i = 0; i < MAXV / 64; i++) if (r->sup->w[i] & touched.w[i]) { hit = true; break; }
            if (hit && !eval_expr(r, m)) { bad = r; break; }
        }
        g_epoch++;
        if (!bad) { memcpy(g_om, m, MAXV); return 1; }
        Clause &c = clause_of(bad); if (!c.ok) return -1;
        bool done = false;
        for (auto &x : c.l) { // make one of its statements true, at a byte not decided above
            if (done) break;
            if (touched.w[x.v / 64] >> (x.v % 64) & 1) continue;
            const u64 *b = bits(x.v);
            for (int i = 0; i < 4 && !done; i++) if (u64 y = b[i] & x.b[i]) { m[x.v] = (u8)(i * 64 + __builtin_ctzll(y)); touched.w[x.v / 64] |= 1ull << (x.v % 64); done = true; }
        }
        if (!done) return -1;
    }
    return -1;
}
// 1 yes (g_om is a model), 0 no, -1 cannot tell
static int dom_check(State &st, Expr *e, int depth = 0) {
    if (isc(e)) { if (e->cv) memcpy(g_om, st.model, MAXV); return (int)e->cv; }
    std::vector<Expr *> cs; conj(e, cs);
    if (cs.size() == 1) {
        int v = -1, n = unfixed(st, e->sup, v);
        if (n == 0) { if (ev(st, e)) { memcpy(g_om, st.model, MAXV); return 1; } return 0; }
        Expr *b, *a = n > 1 ? ora(e, b) : nullptr;
        if (a) { if (depth >= 60) return -1; int r = dom_check(st, a, depth + 1); if (r == 1) return 1; int s = dom_check(st, b, depth + 1); if (s == 1) return 1; return r == 0 && s == 0 ? 0 : -1; }
        if (n > 1) return -1;
    }
    // a conjunction of statements about one unfixed byte each, or more than that
    std::map<int, std::array<u64, 4>> d; bool exact = true;
    for (auto c : cs) {
        int v = -1, n = isc(c) ? 0 : unfixed(st, c->sup, v);
        if (n == 0) { if (!(isc(c) ? c->cv : ev(st, c))) return 0; continue; }
        if (n > 1) { exact = false; continue; }
        u64 b[4]; tt_fixed(st, c, v, b);
        auto it = d.find(v);
        if (it == d.end()) { std::array<u64, 4> a; for (int i = 0; i < 4; i++) a[i] = st.dom[v]->b[i]; it = d.emplace(v, a).first; }
        bool any = false; for (int i = 0; i < 4; i++) { it->second[i] &= b[i]; any |= it->second[i] != 0; }
        if (!any) return 0;
    }
    int r = prop_check(st, d);
    if (!exact && r == 1) return -1;
    return r;
}
static bool feasible(State &st, Expr *e, bool solver_only = false) {
    if (isc(e)) { if (e->cv) memcpy(g_om, st.model, MAXV); return e->cv; }
    if (!solver_only) {
        int r = dom_check(st, e);
        if (r >= 0) {
            shm->domq++; if (r) shm->domsat++; else shm->domunsat++;
            if (opt_cross) {
                u8 keep[MAXV]; memcpy(keep, g_om, MAXV); bool z = z3_check(st, e); shm->crossq++;
                if (z != (bool)r) { shm->crossbad++; throw Unsupported("cross-check: domain procedure and Z3 disagree on " + show(e, 8)); }
                memcpy(g_om, keep, MAXV);
            }
            return r;
        }
    }
    return z3_check(st, e);
}
static void fix_propagate(State &st);
static void add_dom(State &st, int v, const u64 *b) {
    u64 nb[4]; for (int i = 0; i < 4; i++) nb[i] = st.dom[v]->b[i] & b[i];
    Dom *d = mk_dom(nb);
    if (d == st.dom[v]) return;
    if (d->cnt == 0) throw Unsupported("internal: empty domain");
    st.dom[v] = d;
    if (d->cnt == 1) {
        if (st.model[v] != dom_first(d)) throw Unsupported("internal: model outside domain");
        st.fixed[v / 64] |= 1ull << (v % 64); fix_propagate(st);
    }
}
static void add_one(State &st, Expr *e) {
    if (isc(e)) { if (!e->cv) throw Unsupported("internal: false constraint"); return; }
    int v = -1, n = unfixed(st, e->sup, v);
    if (n == 0) { if (!ev(st, e)) throw Unsupported("internal: constraint contradicts fixed bytes"); return; }
    if (n == 1) { u64 b[4]; tt_fixed(st, e, v, b); add_dom(st, v, b); return; }
    for (auto r : st.resid) if (r == e) return;
    st.resid.push_back(e); if (st.resid.size() > shm->maxresid) shm->maxresid = st.resid.size();
}
static void fix_propagate(State &st) {
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < st.resid.size(); i++) {
            int v = -1, n = unfixed(st, st.resid[i]->sup, v);
            if (n > 1) continue;
            Expr *e = st.resid[i]; st.resid.erase(st.resid.begin() + i);
            if (n == 0) { if (!ev(st, e)) throw Unsupported("internal: residual contradicts fixed bytes"); }
            else { u64 b[4]; tt_fixed(st, e, v, b); u64 nb[4]; for (int k = 0; k < 4; k++) nb[k] = st.dom[v]->b[k] & b[k]; st.dom[v] = mk_dom(nb); if (st.dom[v]->cnt == 1) st.fixed[v / 64] |= 1ull << (v % 64); if (st.dom[v]->cnt == 0) throw Unsupported("internal: empty domain (residual)"); }
            ch = true; break;
        }
    }
}
// the current model satisfies e
static void add_con(State &st, Expr *e) { std::vector<Expr *> cs; conj(e, cs); for (auto c : cs) add_one(st, c); }

static std::vector<State *> pending;

// returns the side the current state continues on; the other, if feasible, goes to pending
static bool branch(State &st, Expr *c) {
    if (isc(c)) return c->cv;
    shm->branches++;
    bool side = ev(st, c);
    Expr *mine = side ? c : mk_not(c), *other = side ? mk_not(c) : c;
    if (feasible(st, other)) {
        State *n = new State(st); n->nforks++;
        setmodel(*n, g_om); add_con(*n, other); pending.push_back(n);
        use(st); add_con(st, mine); st.nforks++; shm->forks++;
    }
    return side;
}
// a concrete value for e on this state; other values go to pending
static u128 concretize(State &st, Expr *e) {
    if (isc(e)) return e->cv;
    if (subfixed(st, e->sup)) return ev(st, e);
    u128 v = ev(st, e); shm->concretized++;
    if (!branch(st, mk_bin(E_EQ, e, mk_const(v, e->w)))) throw Unsupported("internal: concretize");
    return v;
}

// ------------------------------------------------------------------ values
static inline Expr *E(const Val &v, unsigned w) { return v.e ? v.e : mk_const(v.c, w); }
static inline Val V(u128 c) { Val v; v.c = c; return v; }
static inline Val mkv(State &st, Expr *e) { Val v; if (isc(e)) v.c = e->cv; else if (subfixed(st, e->sup)) v.c = ev(st, e); else v.e = e; return v; }

static Obj *access(State &st, u64 a, u64 n, bool wr) {
    u32 id = objid(a); u64 off = objoff(a);
    if (n == 0) return nullptr;
    Obj *o = st.mem.get(id);
    if (!o) throw Violation{"memory", id == 0 ? "access through a null or dangling pointer" : "access to freed or invalid memory"};
    if (off + n > o->size || off + n < n) throw Violation{"memory", std::string(wr ? "write" : "read") + " out of bounds"};
    if (wr) { if (o->ro) throw Violation{"memory", "write to constant memory"}; return st.mem.wget(id); }
    return o;
}
static Val load(State &st, u64 a, unsigned w) {
    unsigned n = (w + 7) / 8; Obj *o = access(st, a, n, false); u64 off = objoff(a);
    if (o->sym) {
        bool s = false; for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { s = true; break; }
        if (s) {
            Expr *e = nullptr;
            for (unsigned i = n; i-- > 0;) { Expr *b = o->sym[off + i] ? o->sym[off + i] : mk_const(o->data[off + i], 8); e = e ? mk_concat(e, b) : b; }
            if (w % 8) e = mk_extract(e, 0, w);
            return mkv(st, e);
        }
    }
    u128 c = 0; memcpy(&c, o->data + off, n);
    return V(c & maskw(w));
}
static void put_byte(Obj *o, u64 i, u8 c, Expr *e) {
    if (e && isc(e)) { c = (u8)e->cv; e = nullptr; }
    o->data[i] = c;
    if (e) { if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *)); o->sym[i] = e; }
    else if (o->sym) o->sym[i] = nullptr;
}
static void store(State &st, u64 a, const Val &v, unsigned w) {
    unsigned n = (w + 7) / 8; Obj *o = access(st, a, n, true); u64 off = objoff(a);
    if (!v.e) { u128 c = v.c & maskw(w); memcpy(o->data + off, &c, n); if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr; return; }
    Expr *e = w % 8 ? mk_zext(v.e, n * 8) : v.e;
    for (unsigned i = 0; i < n; i++) put_byte(o, off + i, 0, mk_extract(e, 8 * i, 8));
}
static void copy_mem(State &st, u64 d, u64 s, u64 n) {
    if (!n) return;
    Obj *so = access(st, s, n, false); so->refs++; // keep the source while the destination may be unshared
    Obj *od;
    try { od = access(st, d, n, true); } catch (...) { obj_unref(so); throw; }
    u64 a = objoff(s), b = objoff(d);
    if (od == so || st.mem.get(objid(s)) == od) { // same object (moved by unsharing or not)
        std::vector<u8> t(so->data + a, so->data + a + n); std::vector<Expr *> ts; if (so->sym) ts.assign(so->sym + a, so->sym + a + n);
        memcpy(od->data + b, t.data(), n);
        if (!ts.empty()) { if (!od->sym) od->sym = (Expr **)calloc(od->size, sizeof(Expr *)); memcpy(od->sym + b, ts.data(), n * sizeof(Expr *)); }
        else if (od->sym) memset(od->sym + b, 0, n * sizeof(Expr *));
    } else {
        memcpy(od->data + b, so->data + a, n);
        bool s = false; if (so->sym) for (u64 i = 0; i < n; i++) if (so->sym[a + i]) { s = true; break; }
        if (s) { if (!od->sym) od->sym = (Expr **)calloc(od->size, sizeof(Expr *)); memcpy(od->sym + b, so->sym + a, n * sizeof(Expr *)); }
        else if (od->sym) memset(od->sym + b, 0, n * sizeof(Expr *));
    }
    obj_unref(so);
}
static std::string rd_str(State &st, u64 p, u64 n) { // for messages: concrete under the current model
    std::string s; if (n > 400) n = 400;
    try { for (u64 i = 0; i < n; i++) { Val v = load(st, p + i, 8); s += (char)(v.e ? ev(st, v.e) : v.c); } } catch (Violation &) { s += "?"; }
    return s;
}

// ------------------------------------------------------------------ builtins
enum BI : int {
    B_NONE = -1, B_NOP, B_MEMCPY, B_MEMSET, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_CTLZ, B_CTTZ, B_CTPOP, B_BSWAP, B_BITREV, B_FSHL, B_FSHR,
    B_USUBSAT, B_UADDSAT, B_SSUBSAT, B_SADDSAT, B_UADDO, B_USUBO, B_UMULO, B_SADDO, B_SSUBO, B_SMULO, B_UCMP, B_SCMP, B_EXPECT, B_TLS, B_TRAP, B_ABORT,
    B_BCMP, B_MEMCMP, B_STRLEN, B_ALLOC, B_DEALLOC, B_FREE, B_CALLOC, B_REALLOC, B_ALLOCZ, B_PANIC, B_FMTINT,
    B_SXBYTES, B_SXASSUME, B_SXASSERT, B_SXCOVER, B_SXCONC, B_SXOBS, B_SXARGS, B_SXISSYM, B_SXDEAD, B_SXLOG, B_SXSKIP, B_SXRSKIP, B_SXCHOOSE, B_SXARM, B_SXTID, B_SXSUSPEND, B_SXRESUME, B_VREDOR, B_VREDAND
};
int lookup_builtin(const std::string &n) {
    auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    auto has = [&](const char *p) { return n.find(p) != std::string::npos; };
    if (pre("llvm.")) {
        static const std::vector<std::pair<const char *, int>> t = {
            {"llvm.lifetime.", B_NOP}, {"llvm.assume", B_NOP}, {"llvm.experimental.noalias", B_NOP}, {"llvm.dbg", B_NOP}, {"llvm.donothing", B_NOP}, {"llvm.x86.sse2.pause", B_NOP}, {"llvm.prefetch", B_NOP}, {"llvm.sideeffect", B_NOP},
            {"llvm.memcpy.", B_MEMCPY}, {"llvm.memmove.", B_MEMCPY}, {"llvm.memset.", B_MEMSET},
            {"llvm.umin.", B_UMIN}, {"llvm.umax.", B_UMAX}, {"llvm.smin.", B_SMIN}, {"llvm.smax.", B_SMAX}, {"llvm.abs.", B_ABS},
            {"llvm.ctlz.", B_CTLZ}, {"llvm.cttz.", B_CTTZ}, {"llvm.ctpop.", B_CTPOP}, {"llvm.bswap.", B_BSWAP}, {"llvm.bitreverse.", B_BITREV}, {"llvm.fshl.", B_FSHL}, {"llvm.fshr.", B_FSHR},
            {"llvm.usub.sat.", B_USUBSAT}, {"llvm.uadd.sat.", B_UADDSAT}, {"llvm.ssub.sat.", B_SSUBSAT}, {"llvm.sadd.sat.", B_SADDSAT},
            {"llvm.uadd.with", B_UADDO}, {"llvm.usub.with", B_USUBO}, {"llvm.umul.with", B_UMULO}, {"llvm.sadd.with", B_SADDO}, {"llvm.ssub.with", B_SSUBO}, {"llvm.smul.with", B_SMULO},
            {"llvm.ucmp.", B_UCMP}, {"llvm.scmp.", B_SCMP}, {"llvm.expect.", B_EXPECT}, {"llvm.threadlocal.address", B_TLS}, {"llvm.trap", B_TRAP},
            {"llvm.vector.reduce.or", B_VREDOR}, {"llvm.vector.reduce.and", B_VREDAND}};
        for (auto &x : t) if (pre(x.first)) return x.second;
        return B_NONE;
    }
    if (pre("sx_")) {
        static const std::map<std::string, int> t = {{"sx_bytes", B_SXBYTES}, {"sx_assume", B_SXASSUME}, {"sx_assert", B_SXASSERT}, {"sx_cover", B_SXCOVER}, {"sx_concretize", B_SXCONC}, {"sx_observe", B_SXOBS}, {"sx_init_args", B_SXARGS}, {"sx_is_symbolic", B_SXISSYM}, {"sx_dead", B_SXDEAD}, {"sx_log", B_SXLOG}, {"sx_skip", B_SXSKIP}, {"sx_rskip", B_SXRSKIP}, {"sx_choose", B_SXCHOOSE}, {"sx_arm", B_SXARM}, {"sx_tid", B_SXTID}, {"sx_suspend", B_SXSUSPEND}, {"sx_resume", B_SXRESUME}};
        auto it = t.find(n); if (it != t.end()) return it->second;
    }
    if (n == "bcmp") return B_BCMP;
    if (n == "memcmp") return B_MEMCMP;
    if (n == "memcpy" || n == "memmove") return B_MEMCPY;
    if (n == "memset") return B_MEMSET;
    if (n == "strlen") return B_STRLEN;
    if (n == "malloc") return B_ALLOC;
    if (n == "free") return B_FREE;
    if (n == "calloc") return B_CALLOC;
    if (n == "abort") return B_ABORT;
    if (has("7___rustc12___rust_alloc")) return B_ALLOC;
    if (has("7___rustc14___rust_dealloc")) return B_DEALLOC;
    if (has("7___rustc14___rust_realloc")) return B_REALLOC;
    if (has("7___rustc19___rust_alloc_zeroed")) return B_ALLOCZ;
    if (has("___rust_no_alloc_shim_is_unstable")) return B_NOP;
    if (has("4core9panicking9panic_fmt") || has("4core9panicking18panic_nounwind_fmt")) return B_PANIC;
    if (has("4core3fmt3num3imp") && has("7Display3fmt")) return B_FMTINT;
    { size_t p = n.find("4core3fmt3num"); if (p != std::string::npos && n.compare(p + 14, 3, "NtB") == 0 && has("_5Debug3fmt")) return B_FMTINT; }
    return B_NONE;
}
static Func *fn_pad_integral = nullptr;

// ------------------------------------------------------------------ source locations
static std::string mdfield(const std::string &t, const char *f) {
    std::string k = std::string(f) + ": "; size_t p = t.find(k); if (p == std::string::npos) return "";
    p += k.size(); if (t[p] == '"') { size_t e = t.find('"', p + 1); return t.substr(p + 1, e - p - 1); }
    size_t e = t.find_first_of(",)", p); return t.substr(p, e - p);
}
struct Loc { std::string file, fn; int line = 0; };
static Loc loc1(u32 md, u32 &inl) {
    Loc l; std::string t = md_text(md); inl = 0;
    l.line = atoi(mdfield(t, "line").c_str());
    std::string sc = mdfield(t, "scope"), in = mdfield(t, "inlinedAt"); if (in.size() > 1) inl = (u32)atoi(in.c_str() + 1);
    for (int i = 0; i < 40 && sc.size() > 1; i++) {
        std::string s = md_text((u32)atoi(sc.c_str() + 1));
        if (l.file.empty()) { std::string f = mdfield(s, "file"); if (f.size() > 1) { std::string ft = md_text((u32)atoi(f.c_str() + 1)), d = mdfield(ft, "directory"); l.file = mdfield(ft, "filename"); if (!l.file.empty() && l.file[0] != '/' && !d.empty()) l.file = d + "/" + l.file; } }
        if (s.find("DISubprogram") != std::string::npos) { l.fn = mdfield(s, "name"); break; }
        sc = mdfield(s, "scope");
    }
    return l;
}
static std::string loc_str(u32 md) {
    std::string best, s; int k = 0;
    while (md && k++ < 30) { u32 inl; Loc l = loc1(md, inl); std::string x = l.file + ":" + std::to_string(l.line) + " (" + l.fn + ")"; md = inl; if (x.find("/rustlib/") != std::string::npos || x.find("/rustc/") == 0) continue; if (!s.empty()) s += " < "; s += x; }
    return s;
}
static std::string backtrace(State &st) {
    std::string s;
    for (size_t i = st.fr.size(); i-- > 0 && s.size() < 3000;) {
        Frame *f = st.fr[i]; if (f->pc >= f->f->blocks[f->block].in.size()) continue;
        Inst &in = f->f->blocks[f->block].in[f->pc];
        std::string l = in.dbg ? loc_str(in.dbg) : f->f->name;
        if (l.empty()) continue;
        if (!s.empty()) s += " <- "; s += l;
    }
    return s;
}
static std::string hexin(State &st, const u8 *m) { std::string s; char b[4]; for (int i = 0; i < st.nv; i++) if (!st.schedv.count(i)) { snprintf(b, 4, "%02x", m[i]); s += b; } return s; }
static void report(State &st, const std::string &kind, const std::string &msg, const u8 *m) {
    u64 n = ++shm->violations;
    if (n > 400) return;
    emit("{\"type\":\"violation\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"at\":" + jstr(backtrace(st)) + ",\"preempts\":" + std::to_string(st.preempts) + ",\"input\":\"" + hexin(st, m) + "\"}");
}

// ------------------------------------------------------------------ interpreter
static u64 g_instrs = 0, g_flushed = 0;
static inline Val getv(State &st, Frame *f, const Opnd &o, u32 i = 0) {
    if (o.slot < 0) return o.cv[i];
    Val v = f->regs[o.slot + i];
    if (v.e && subfixed(st, v.e->sup)) { v.c = ev(st, v.e); v.e = nullptr; }
    return v;
}
static void enter(State &st, Func *fn, Inst *call, const std::vector<Val> &args) {
    ir_parse(fn);
    if (!fn->entered) { fn->entered = true; if (fn->idx < (1 << 16)) shm->fn[fn->idx] = 1; }
    Frame *n = new Frame{1, fn, 0, 0, {}, {}, call}; n->regs.resize(fn->nslots);
    size_t k = 0;
    for (auto &p : fn->params) for (u32 i = 0; i < p.second; i++) { if (k < args.size()) n->regs[p.first + i] = args[k]; k++; }
    st.fr.push_back(n);
    if (st.fr.size() > shm->maxdepth) shm->maxdepth = st.fr.size();
    if (st.fr.size() > opt_depth) throw Violation{"stack", "recursion deeper than " + std::to_string(opt_depth) + " frames"};
}
static void jump(State &st, Frame *f, int to) {
    auto it = f->f->edges.find({(int)f->block, to});
    if (it != f->f->edges.end()) {
        auto &ed = it->second;
        static std::vector<Val> tmp; tmp.clear();
        for (auto &x : ed) for (u32 i = 0; i < std::get<1>(x); i++) tmp.push_back(getv(st, f, std::get<2>(x), i));
        size_t k = 0;
        for (auto &x : ed) for (u32 i = 0; i < std::get<1>(x); i++) f->regs[std::get<0>(x) + i] = tmp[k++];
    }
    f->block = to; f->pc = f->f->blocks[to].nphi;
}
static Expr *icmp(u8 p, Expr *a, Expr *b) {
    switch (p) {
    case P_EQ: return mk_bin(E_EQ, a, b);
    case P_NE: return mk_not(mk_bin(E_EQ, a, b));
    case P_UGT: return mk_bin(E_ULT, b, a);
    case P_UGE: return mk_bin(E_ULE, b, a);
    case P_ULT: return mk_bin(E_ULT, a, b);
    case P_ULE: return mk_bin(E_ULE, a, b);
    case P_SGT: return mk_bin(E_SLT, b, a);
    case P_SGE: return mk_bin(E_SLE, b, a);
    case P_SLT: return mk_bin(E_SLT, a, b);
    default: return mk_bin(E_SLE, a, b);
    }
}
static bool icmpc(u8 p, u128 a, u128 b, unsigned w) {
    switch (p) {
    case P_EQ: return a == b; case P_NE: return a != b; case P_UGT: return a > b; case P_UGE: return a >= b; case P_ULT: return a < b; case P_ULE: return a <= b;
    case P_SGT: return sextw(a, w) > sextw(b, w); case P_SGE: return sextw(a, w) >= sextw(b, w); case P_SLT: return sextw(a, w) < sextw(b, w); default: return sextw(a, w) <= sextw(b, w);
    }
}
static Val bin(State &st, u8 op, const Val &a, const Val &b, unsigned w) {
    if (!a.e && !b.e) {
        if (op == 100) return V((a.c - b.c) & maskw(w));
        bool ok; u128 r = fold((Op)op, a.c, b.c, w, ok);
        if (!ok) throw Violation{"arith", "division by zero"};
        return V(r);
    }
    Expr *x = E(a, w), *y = E(b, w);
    if (op == 100) return mkv(st, mk_sub(x, y));
    if ((op == E_UDIV || op == E_UREM || op == E_SDIV || op == E_SREM) && !isc(y)) {
        if (branch(st, mk_bin(E_EQ, y, mk_const(0, w)))) throw Violation{"arith", "division by zero"};
    }
    return mkv(st, mk_bin((Op)op, x, y));
}
static u64 addr_of(State &st, const Val &v) { return v.e ? (u64)concretize(st, v.e) : (u64)v.c; }

// a load through an address that depends on one byte, from constant memory: build the table lookup
static bool table_load(State &st, Expr *a, unsigned w, Val &out) {
    int v = -1; if (unfixed(st, a->sup, v) != 1) return false;
    std::map<u128, std::vector<int>> byval; u8 save = st.model[v]; bool ok = true; cur = nullptr;
    std::vector<std::pair<int, u64>> addrs;
    for (int i = 0; i < 256; i++) if (st.dom[v]->has(i)) { g_epoch++; st.model[v] = (u8)i; addrs.push_back({i, (u64)eval_expr(a, st.model)}); }
    st.model[v] = save; g_epoch++;
    for (auto &x : addrs) {
        Obj *o = st.mem.get(objid(x.second)); unsigned n = (w + 7) / 8;
        if (!o || !o->ro || objoff(x.second) + n > o->size) { ok = false; break; }
        u128 c = 0; memcpy(&c, o->data + objoff(x.second), n); byval[c & maskw(w)].push_back(x.first);
    }
    if (!ok) return false;
    if (byval.size() == 1) { out = V(byval.begin()->first); return true; }
    // the most frequent value is the default
    auto best = byval.begin(); for (auto it = byval.begin(); it != byval.end(); ++it) if (it->second.size() > best->second.size()) best = it;
    Expr *r = mk_const(best->first, w), *x = mk_var(v);
    for (auto it = byval.begin(); it != byval.end(); ++it) if (it != best) {
        Expr *c = mk_const(0, 1); auto &l = it->second;
        for (size_t i = 0; i < l.size();) { size_t j = i; while (j + 1 < l.size() && l[j + 1] == l[j] + 1) j++;
            Expr *k = i == j ? mk_bin(E_EQ, x, mk_const(l[i], 8)) : mk_bin(E_AND, mk_bin(E_ULE, mk_const(l[i], 8), x), mk_bin(E_ULE, x, mk_const(l[j], 8)));
            c = mk_bin(E_OR, c, k); i = j + 1; }
        r = mk_ite(c, mk_const(it->first, w), r);
    }
    out = mkv(st, r); return true;
}
static u64 heap(State &st, u64 n) {
    if (n > (1ull << 34)) return 0;
    shm->objs++;
    return objaddr(st.mem.add(obj_new(n)));
}
static std::string panic_text(State &st, const std::vector<Val> &a) {
    // (template pointer, args pointer or length marker, location); the location is the last argument
    std::string s = "panic";
    if (a.size() >= 1 && !a.back().e) {
        try {
            u64 l = (u64)a.back().c; u64 fp = (u64)load(st, l, 64).c, fl = (u64)load(st, l + 8, 64).c; u32 ln = (u32)load(st, l + 16, 32).c;
            s = "panic at " + rd_str(st, fp, fl) + ":" + std::to_string(ln);
        } catch (Violation &) {} catch (PathEnd &) {}
    }
    if (a.size() >= 3 && !a[0].e && !a[1].e && (a[1].c & 1) && (a[1].c >> 1) < 300) s += ": " + rd_str(st, (u64)a[0].c, (u64)(a[1].c >> 1));
    return s;
}
static void do_assert(State &st, const Val &c, const std::string &msg) {
    shm->asserts++;
    if (!c.e) {
        shm->asserts_const++;
        if (!(c.c & 1)) { report(st, "assert", msg, st.model); throw PathEnd(); }
        return;
    }
    Expr *e = c.e->w == 1 ? c.e : mk_not(mk_bin(E_EQ, c.e, mk_const(0, c.e->w)));
    shm->asserts_solver++;
    if (z3_check(st, mk_not(e))) {
        u8 m[MAXV]; memcpy(m, g_om, MAXV); report(st, "assert", msg, m);
        // carry on with the inputs for which the assertion holds, if any
        if (ev(st, e)) add_con(st, e);
        else if (feasible(st, e)) { setmodel(st, g_om); add_con(st, e); }
        else throw PathEnd();
    }
}
static Func *fn_at(u64 a) { if (a < FUNC_BASE || (a - FUNC_BASE) % 16) return nullptr; u64 i = (a - FUNC_BASE) / 16; return i && i < g_funcs.size() ? g_funcs[i] : nullptr; }

// returns true if a frame was pushed (result arrives on return)
static bool call_builtin(State &st, Frame *f, Inst &in, int bi, Func *callee, std::vector<Val> &a, std::vector<Val> &res) {
    unsigned w = in.w ? in.w : 64;
    auto ret = [&](Val v) { res.push_back(v); };
    auto rete = [&](Expr *e) { res.push_back(mkv(st, e)); };
    auto A = [&](size_t i) { return addr_of(st, a[i]); };
    switch (bi) {
    case B_NOP: for (u32 i = 0; i < in.n && in.dst >= 0; i++) ret(V(0)); break;
    case B_MEMCPY: { u64 n = A(2), d = A(0), s = A(1); copy_mem(st, d, s, n); if (in.dst >= 0) ret(V(d)); break; }
    case B_MEMSET: {
        u64 n = A(2), d = A(0); Obj *o = access(st, d, n, true);
        if (n) { u64 off = objoff(d); Expr *e = a[1].e; if (e && e->w > 8) e = mk_extract(e, 0, 8);
            if (!e) { memset(o->data + off, (u8)a[1].c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr *)); } else for (u64 i = 0; i < n; i++) put_byte(o, off + i, 0, e); }
        if (in.dst >= 0) ret(V(d)); break;
    }
    case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
        if (in.ty->k == Type::Vector) throw Unsupported("vector min/max");
        Expr *x = E(a[0], w), *y = E(a[1], w); bool s = bi == B_SMIN || bi == B_SMAX, mx = bi == B_UMAX || bi == B_SMAX;
        Expr *c = mk_bin(s ? E_SLT : E_ULT, x, y); rete(mx ? mk_ite(c, y, x) : mk_ite(c, x, y)); break;
    }
    case B_ABS: { Expr *x = E(a[0], w); rete(mk_ite(mk_bin(E_SLT, x, mk_const(0, w)), mk_sub(mk_const(0, w), x), x)); break; }
    case B_CTLZ: case B_CTTZ: {
        if (!a[0].e) { unsigned r = 0; if (bi == B_CTLZ) while (r < w && !(a[0].c >> (w - 1 - r) & 1)) r++; else while (r < w && !(a[0].c >> r & 1)) r++; ret(V(r)); break; }
        Expr *x = a[0].e, *r = mk_const(w, w);
        for (unsigned i = 0; i < w; i++) { unsigned bit = bi == B_CTTZ ? w - 1 - i : i; Expr *b = mk_bin(E_EQ, mk_extract(x, bit, 1), mk_const(1, 1)); r = mk_ite(b, mk_const(bi == B_CTTZ ? bit : w - 1 - bit, w), r); }
        rete(r); break;
    }
    case B_CTPOP: {
        if (!a[0].e) { unsigned r = 0; for (unsigned i = 0; i < w; i++) r += (a[0].c >> i) & 1; ret(V(r)); break; }
        Expr *r = mk_const(0, w); for (unsigned i = 0; i < w; i++) r = mk_bin(E_ADD, r, w == 1 ? a[0].e : mk_zext(mk_extract(a[0].e, i, 1), w)); rete(r); break;
    }
    case B_BSWAP: { Expr *x = E(a[0], w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *b = mk_extract(x, i, 8); r = r ? mk_concat(r, b) : b; } rete(r); break; }
    case B_BITREV: { Expr *x = E(a[0], w), *r = nullptr; for (unsigned i = 0; i < w; i++) { Expr *b = mk_extract(x, i, 1); r = r ? mk_concat(r, b) : b; } rete(r); break; }
    case B_FSHL: case B_FSHR: {
        u64 s = A(2) % w; Expr *x = E(a[0], w), *y = E(a[1], w);
        if (s == 0) rete(bi == B_FSHL ? x : y);
        else { if (bi == B_FSHR) s = w - s; rete(mk_concat(mk_extract(x, 0, w - s), mk_extract(y, w - s, s))); }
        break;
    }
    case B_USUBSAT: { Expr *x = E(a[0], w), *y = E(a[1], w); rete(mk_ite(mk_bin(E_ULT, x, y), mk_const(0, w), mk_sub(x, y))); break; }
    case B_UADDSAT: { Expr *x = E(a[0], w), *y = E(a[1], w), *s = mk_bin(E_ADD, x, y); rete(mk_ite(mk_bin(E_ULT, s, x), mk_const(~(u128)0, w), s)); break; }
    case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
        w = leaves(in.ty)[0].second; Expr *x = E(a[0], w), *y = E(a[1], w), *r, *o;
        if (bi == B_UADDO) { r = mk_bin(E_ADD, x, y); o = mk_bin(E_ULT, r, x); }
        else if (bi == B_USUBO) { r = mk_sub(x, y); o = mk_bin(E_ULT, x, y); }
        else if (bi == B_UMULO) {
            if (w > 64) throw Unsupported("umul.with.overflow >64");
            if (isc(x)) std::swap(x, y);
            Expr *m = mk_bin(E_MUL, mk_zext(x, 2 * w), mk_zext(y, 2 * w)); r = mk_bin(E_MUL, x, y);
            if (isc(y)) o = y->cv == 0 ? mk_const(0, 1) : mk_bin(E_ULT, mk_const(maskw(w) / y->cv, w), x);
            else o = mk_not(mk_bin(E_EQ, mk_extract(m, w, w), mk_const(0, w)));
        } else {
            unsigned w2 = bi == B_SMULO ? 2 * w : w + 1; if (w2 > 128) throw Unsupported("signed overflow width");
            Expr *X = mk_sext(x, w2), *Y = mk_sext(y, w2), *m = bi == B_SADDO ? mk_bin(E_ADD, X, Y) : bi == B_SSUBO ? mk_sub(X, Y) : mk_bin(E_MUL, X, Y);
            r = mk_extract(m, 0, w); o = mk_not(mk_bin(E_EQ, mk_sext(r, w2), m));
        }
        rete(r); rete(o); break;
    }
    case B_UCMP: case B_SCMP: {
        unsigned aw = in.sw[0]; Expr *x = E(a[0], aw), *y = E(a[1], aw);
        rete(mk_ite(mk_bin(bi == B_UCMP ? E_ULT : E_SLT, x, y), mk_const(~(u128)0, w), mk_ite(mk_bin(E_EQ, x, y), mk_const(0, w), mk_const(1, w)))); break;
    }
    case B_EXPECT: ret(a[0]); break;
    case B_TLS: {
        if (!st.tid) { ret(a[0]); break; }
        u64 g = A(0); u32 id = objid(g); auto k = std::make_pair(id, st.tid); auto it = st.tls.find(k);
        if (it == st.tls.end()) {
            Global *gl = nullptr; for (auto x : g_globals) if (objid(x->addr) == id) gl = x;
            if (!gl) throw Unsupported("thread-local variable");
            std::vector<u8> b; ir_init_global(gl, b); Obj *o = obj_new(b.size()); memcpy(o->data, b.data(), b.size());
            it = st.tls.emplace(k, st.mem.add(o)).first;
        }
        ret(V(objaddr(it->second) | objoff(g))); break;
    }
    case B_VREDOR: case B_VREDAND: { Expr *r = E(a[0], w); for (size_t i = 1; i < a.size(); i++) r = mk_bin(bi == B_VREDOR ? E_OR : E_AND, r, E(a[i], w)); rete(r); break; }
    case B_TRAP: throw Violation{"panic", "trap"};
    case B_ABORT: throw Violation{"panic", "abort"};
    case B_PANIC: throw Violation{"panic", panic_text(st, a)};
    case B_BCMP: case B_MEMCMP: {
        u64 n = A(2), p = A(0), q = A(1);
        if (n) { access(st, p, n, false); access(st, q, n, false); }
        if (bi == B_BCMP) {
            Expr *eq = mk_const(1, 1);
            for (u64 i = 0; i < n; i++) { Expr *x = mk_bin(E_EQ, E(load(st, p + i, 8), 8), E(load(st, q + i, 8), 8)); if (isc(x)) { if (!x->cv) { eq = x; break; } continue; } eq = mk_bin(E_AND, x, eq); }
            rete(mk_ite(eq, mk_const(0, 32), mk_const(1, 32)));
        } else {
            Expr *r = mk_const(0, 32);
            for (u64 i = n; i-- > 0;) { Expr *x = E(load(st, p + i, 8), 8), *y = E(load(st, q + i, 8), 8); r = mk_ite(mk_bin(E_EQ, x, y), r, mk_ite(mk_bin(E_ULT, x, y), mk_const(~(u128)0, 32), mk_const(1, 32))); }
            rete(r);
        }
        break;
    }
    case B_STRLEN: { u64 p = A(0), n = 0; for (;; n++) { Val v = load(st, p + n, 8); if (v.e) { if (branch(st, mk_bin(E_EQ, v.e, mk_const(0, 8)))) break; } else if (!v.c) break; } ret(V(n)); break; }
    case B_ALLOC: case B_ALLOCZ: { u64 n = A(0); ret(V(heap(st, n))); break; }
    case B_CALLOC: { u64 n = A(0) * A(1); ret(V(heap(st, n))); break; }
    case B_FREE: if (!A(0)) break; [[fallthrough]];
    case B_DEALLOC: { u64 p = A(0); if (objoff(p) || !st.mem.get(objid(p))) throw Violation{"memory", "invalid free"}; st.mem.del(objid(p)); break; }
    case B_REALLOC: {
        u64 p = A(0), o = A(1), n = A(3); u64 q = heap(st, n); if (!q) { ret(V(0)); break; }
        if (objoff(p) || !st.mem.get(objid(p))) throw Violation{"memory", "invalid realloc"};
        copy_mem(st, q, p, std::min(o, n)); st.mem.del(objid(p)); ret(V(q)); break;
    }
    case B_FMTINT: { // Display of an integer: with a symbolic value, print a marker byte and the raw value instead of digits
        Type *t = nullptr; (void)t;
        const std::string &nm = callee->name; size_t p = nm.find("4core3fmt3num3imp"); char tc = p != std::string::npos ? nm[p + 17] : nm[nm.find("4core3fmt3num") + 13];
        int bw = 0; switch (tc) { case 'a': case 'h': bw = 8; break; case 's': case 't': bw = 16; break; case 'l': case 'm': bw = 32; break; case 'x': case 'y': case 'i': case 'j': bw = 64; break; }
        if (!bw || !fn_pad_integral) { enter(st, callee, &in, a); return true; }
        bool sgn = tc == 'a' || tc == 's' || tc == 'l' || tc == 'x' || tc == 'i';
        // refs to refs are dispatched elsewhere; here the first argument points at the integer
        u64 pv = A(0); Val v = load(st, pv, bw);
        if (!v.e) { enter(st, callee, &in, a); return true; }
        Expr *e = sgn ? mk_sext(v.e, 64) : mk_zext(v.e, 64);
        u64 b = heap(st, 9); Obj *o = access(st, b, 9, true); put_byte(o, 0, 1, nullptr); for (int i = 0; i < 8; i++) put_byte(o, 1 + i, 0, mk_extract(e, 56 - 8 * i, 8));
        std::vector<Val> na; na.push_back(a[1]); na.push_back(V(1)); na.push_back(V(1)); na.push_back(V(0)); na.push_back(V(b)); na.push_back(V(9));
        enter(st, fn_pad_integral, &in, na); return true;
    }
    case B_SXBYTES: {
        u64 n = A(1), p = A(0); if (st.nv + n > (u64)MAXV) throw Unsupported("too many symbolic bytes");
        if (n) { Obj *o = access(st, p, n, true); u64 off = objoff(p); for (u64 i = 0; i < n; i++) { int v = st.nv++; if (subfixed(st, mk_var(v)->sup)) put_byte(o, off + i, st.model[v], nullptr); else put_byte(o, off + i, 0, mk_var(v)); } }
        break;
    }
    case B_SXASSUME: {
        if (!a[0].e) { if (!(a[0].c & 1)) throw PathDead(); break; }
        Expr *e = a[0].e; if (e->w != 1) e = mk_not(mk_bin(E_EQ, e, mk_const(0, e->w)));
        if (ev(st, e)) add_con(st, e);
        else if (feasible(st, e)) { setmodel(st, g_om); add_con(st, e); }
        else throw PathDead();
        break;
    }
    case B_SXASSERT: { u64 n = A(2), p = A(1); do_assert(st, a[0], rd_str(st, p, n)); break; }
    case B_SXCOVER: { u64 i = A(0); if (i < 4096) shm->cover[i] = 1; break; }
    case B_SXCONC: ret(V(A(0))); break;
    case B_SXOBS: st.obs.push_back({64, a[0]}); break;
    case B_SXISSYM: ret(V(a[0].e ? 1 : 0)); break;
    case B_SXSKIP: case B_SXRSKIP: { // how many bytes from the start (the end) are concrete and differ from the given one
        if (a[0].e || a[1].e || a[2].e) { ret(V(0)); break; }
        u64 p = A(0), n = A(1), k = 0; u8 c = (u8)a[2].c; if (!n) { ret(V(0)); break; }
        Obj *o = access(st, p, n, false); u64 off = objoff(p);
        if (!o->sym) { // in pieces: memrchr of some C libraries errs on more than 2^32 bytes
            u8 *b = o->data + off;
            while (k < n) {
                u64 m = std::min<u64>(n - k, 1 << 20); u8 *e = (u8 *)(bi == B_SXSKIP ? memchr(b + k, c, m) : memrchr(b + n - k - m, c, m));
                if (!e) { k += m; continue; }
                k = bi == B_SXSKIP ? e - b : b + n - 1 - e; break;
            }
        }
        else if (bi == B_SXSKIP) while (k < n && o->data[off + k] != c && !(o->sym && o->sym[off + k])) k++;
        else while (k < n && o->data[off + n - 1 - k] != c && !(o->sym && o->sym[off + n - 1 - k])) k++;
        ret(V(k)); st.steps += k / 16; break;
    }
    case B_SXCHOOSE: { // a scheduling decision: not part of the input
        u64 n = A(0); if (n < 2) { ret(V(0)); break; }
        // what is forked off in the middle comes here again, with the same variable
        if (st.choosing < 0) {
            if (st.nv >= MAXV) throw Unsupported("too many symbolic bytes");
            int v = st.choosing = st.nv++; st.schedv.insert(v); u64 b[4] = {0, 0, 0, 0}; for (u64 i = 0; i < n && i < 256; i++) b[i >> 6] |= 1ull << (i & 63);
            if (!(st.fixed[v / 64] >> (v % 64) & 1)) add_dom(st, v, b);
        }
        Val r = mkv(st, mk_zext(mk_var(st.choosing), 64)); u128 c = r.e ? concretize(st, r.e) : r.c;
        st.choosing = -1;
        if (c) st.preempts++;
        ret(V(c)); break;
    }
    case B_SXARM: st.armed = A(0) != 0; break;
    case B_SXTID: st.tid = (u32)A(0); break;
    case B_SXSUSPEND: { // the frames of the innermost task are put aside; its starter goes on
        u32 k = (u32)A(0); size_t b = st.fr.size(); while (b > 0 && st.fr[b - 1]->f->name != "sx_task_body") b--;
        if (b < 2) throw Unsupported("internal: nothing to suspend");
        st.top()->pc++;
        auto &v = st.parked[k]; v.assign(st.fr.begin() + b - 1, st.fr.end()); st.fr.resize(b - 1);
        st.top()->pc++; return true;
    }
    case B_SXRESUME: { // as if called from here
        u32 k = (u32)A(0); auto it = st.parked.find(k); if (it == st.parked.end()) throw Unsupported("internal: nothing to resume");
        st.fr.insert(st.fr.end(), it->second.begin(), it->second.end()); st.parked.erase(it); return true;
    }
    case B_SXDEAD: throw PathDead();
    case B_SXLOG: { u64 n = A(1), p = A(0); fprintf(stderr, "log: %s\n", rd_str(st, p, n).c_str()); break; }
    case B_SXARGS: {
        Func *g = nullptr;
        for (auto gl : g_globals) if (gl->name.find("ARGV_INIT_ARRAY") != std::string::npos && gl->name.find("init_wrapper") == std::string::npos) { Val v = load(st, gl->addr, 64); g = fn_at((u64)v.c); }
        if (!g) throw Unsupported("no ARGV_INIT_ARRAY");
        enter(st, g, &in, a); return true;
    }
    default: throw Unsupported("builtin " + std::to_string(bi));
    }
    (void)f;
    return false;
}

static Func *fn_hook = nullptr;
static std::string opt_repo = "/repo/";
// 1: in the code under test, 2: in the standard library's input and output, threads, channels and reference counts, 0: elsewhere
static int origin(u32 md) {
    static std::unordered_map<u32, int> memo; auto it = memo.find(md); if (it != memo.end()) return it->second;
    int r = 0, k = 0; u32 m = md;
    while (m && k++ < 40) { u32 inl; Loc l = loc1(m, inl); if (l.file.compare(0, opt_repo.size(), opt_repo) == 0) { r = 1; break; } bool o = false; for (auto x : {"std/src/io/", "std/src/thread/", "std/src/sys/thread", "std/src/sync/mpmc/", "std/src/sync/mpsc", "alloc/src/sync.rs"}) o |= l.file.find(x) != std::string::npos; if (o) { r = 2; break; } m = inl; }
    return memo[md] = r;
}
static bool preemptible(State &st) {
    for (size_t i = st.fr.size(), k = 0; i-- > 0 && k < 8; k++) { Frame *f = st.fr[i]; int o = origin(f->f->blocks[f->block].in[f->pc].dbg); if (o) return o == 1; }
    return false;
}
static void step(State &st) {
    Frame *f = st.top();
    Inst &in = f->f->blocks[f->block].in[f->pc];
    st.steps++; g_instrs++;
    if (in.point && fn_hook) {
        if (st.armed && !st.at && st.points < opt_points && preemptible(st)) { st.points++; enter(st, fn_hook, nullptr, {}); st.fr.back()->resume = true; return; }
        st.at = false;
    }
    if (in.dbg && in.dbg < (1u << 22) && !shm->dbg[in.dbg].load(std::memory_order_relaxed)) shm->dbg[in.dbg] = 1;
    switch (in.op) {
    case I_BIN: {
        for (u32 i = 0; i < in.n; i++) { Val r = bin(st, in.sub, getv(st, f, in.ops[0], i), getv(st, f, in.ops[1], i), in.w); f = st.top(); f->regs[in.dst + i] = r; }
        break;
    }
    case I_ICMP: {
        unsigned w = in.ty2->k == Type::Vector ? in.ty2->el->w : in.ty2->w;
        for (u32 i = 0; i < in.n; i++) {
            Val a = getv(st, f, in.ops[0], i), b = getv(st, f, in.ops[1], i);
            if (!a.e && !b.e) f->regs[in.dst + i] = V(icmpc(in.sub, a.c, b.c, w));
            else f->regs[in.dst + i] = mkv(st, icmp(in.sub, E(a, w), E(b, w)));
        }
        break;
    }
    case I_CAST: {
        if (in.sub == C_COPY && in.ops[0].n != in.n) { // bitcast between vector shapes
            unsigned sw = in.ty2->k == Type::Vector ? in.ty2->el->w : in.ty2->w; Expr *e = nullptr;
            for (u32 i = in.ops[0].n; i-- > 0;) { Expr *x = E(getv(st, f, in.ops[0], i), sw); e = e ? mk_concat(e, x) : x; }
            for (u32 i = 0; i < in.n; i++) f->regs[in.dst + i] = mkv(st, mk_extract(e, i * in.w, in.w));
            break;
        }
        unsigned sw = in.ty2->k == Type::Vector ? in.ty2->el->w : in.ty2->w;
        for (u32 i = 0; i < in.n; i++) {
            Val a = getv(st, f, in.ops[0], i), r;
            u8 k = in.sub; if (k == C_COPY) k = in.w < sw ? C_TRUNC : C_ZEXT;
            if (k == C_TRUNC) { if (a.e) r = mkv(st, mk_extract(a.e, 0, in.w)); else r.c = a.c & maskw(in.w); }
            else if (k == C_ZEXT) { if (a.e) r = mkv(st, mk_zext(a.e, in.w)); else r = a; }
            else { if (a.e) r = mkv(st, mk_sext(a.e, in.w)); else r.c = (u128)sextw(a.c, sw) & maskw(in.w); }
            f->regs[in.dst + i] = r;
        }
        break;
    }
    case I_SELECT: {
        Val c = getv(st, f, in.ops[0]);
        if (!in.flag && !c.e) { const Opnd &o = in.ops[c.c & 1 ? 1 : 2]; static std::vector<Val> t; t.clear(); for (u32 i = 0; i < in.n; i++) t.push_back(getv(st, f, o, i)); for (u32 i = 0; i < in.n; i++) f->regs[in.dst + i] = t[i]; break; }
        auto &ls = leaves(in.ty);
        std::vector<Val> t;
        for (u32 i = 0; i < in.n; i++) {
            Val cc = in.flag ? getv(st, f, in.ops[0], i) : c;
            t.push_back(mkv(st, mk_ite(E(cc, 1), E(getv(st, f, in.ops[1], i), ls[i].second), E(getv(st, f, in.ops[2], i), ls[i].second))));
        }
        for (u32 i = 0; i < in.n; i++) f->regs[in.dst + i] = t[i];
        break;
    }
    case I_BR: jump(st, f, in.blk[0]); return;
    case I_CBR: {
        Val c = getv(st, f, in.ops[0]);
        bool t = c.e ? branch(st, c.e) : (c.c & 1);
        f = st.top(); jump(st, f, in.blk[t ? 0 : 1]); return;
    }
    case I_SWITCH: {
        Val v = getv(st, f, in.ops[0]);
        if (!v.e) { int to = in.blk[0]; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == v.c) { to = in.blk[i + 1]; break; } jump(st, f, to); return; }
        // group cases by target; follow the one the model takes, leave the rest to a sibling state
        u128 m = ev(st, v.e); int to = in.blk[0]; for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == m) { to = in.blk[i + 1]; break; }
        Expr *c = mk_const(0, 1); bool def = to == in.blk[0];
        for (size_t i = 0; i < in.cases.size(); i++) { bool hit = in.blk[i + 1] == to; if (hit != def) c = mk_bin(E_OR, c, mk_bin(E_EQ, v.e, mk_const(in.cases[i], in.w))); }
        if (def) c = mk_not(c);
        if (!branch(st, c)) throw Unsupported("internal: switch");
        f = st.top(); jump(st, f, to); return;
    }
    case I_RET: {
        std::vector<Val> r; for (u32 i = 0; i < in.n; i++) r.push_back(getv(st, f, in.ops[0], i));
        for (u32 id : f->allocas) st.mem.del(id);
        Inst *call = f->call; bool resume = f->resume;
        if (--f->refs == 0) delete f; // top() made it exclusive
        st.fr.pop_back();
        if (st.fr.empty()) throw PathEnd();
        f = st.top();
        if (resume) { st.at = true; return; }
        if (call && call->dst >= 0) for (u32 i = 0; i < r.size() && i < call->n; i++) f->regs[call->dst + i] = r[i];
        f->pc++; return;
    }
    case I_UNREACHABLE: throw Violation{"unreachable", "reached code the compiler assumed unreachable"};
    case I_ALLOCA: {
        u64 n = in.imm; if (!in.ops.empty()) n *= (u64)getv(st, f, in.ops[0]).c;
        u32 id = st.mem.add(obj_new(n)); f->allocas.push_back(id); f->regs[in.dst] = V(objaddr(id)); break;
    }
    case I_LOAD: {
        Val p = getv(st, f, in.ops[0]);
        if (p.e && in.n == 1) { Val o; if (table_load(st, p.e, in.w, o)) { f->regs[in.dst] = o; break; } }
        u64 a = addr_of(st, p); f = st.top();
        auto &ls = leaves(in.ty);
        for (u32 i = 0; i < in.n; i++) { if (ls[i].first == ~(u64)0) throw Unsupported("load of <n x i1>"); f->regs[in.dst + i] = load(st, a + ls[i].first, ls[i].second); }
        break;
    }
    case I_STORE: {
        u64 a = addr_of(st, getv(st, f, in.ops[1])); f = st.top();
        auto &ls = leaves(in.ty);
        for (u32 i = 0; i < in.n; i++) { if (ls[i].first == ~(u64)0) throw Unsupported("store of <n x i1>"); store(st, a + ls[i].first, getv(st, f, in.ops[0], i), ls[i].second); }
        break;
    }
    case I_GEP: {
        Val b = getv(st, f, in.ops[0]); bool sym = b.e;
        u64 c = in.imm; Expr *e = b.e; if (!b.e) c += (u64)b.c;
        for (size_t i = 1; i < in.ops.size(); i++) {
            Val v = getv(st, f, in.ops[i]); unsigned w = in.sw[i - 1]; u64 sc = in.scale[i - 1];
            if (!v.e) c += (u64)sextw(v.c, w) * sc;
            else { Expr *x = mk_bin(E_MUL, w < 64 ? mk_sext(v.e, 64) : mk_extract(v.e, 0, 64), mk_const(sc, 64)); e = e ? mk_bin(E_ADD, e, x) : x; sym = true; }
        }
        f->regs[in.dst] = sym ? mkv(st, mk_bin(E_ADD, e, mk_const(c, 64))) : V(c);
        break;
    }
    case I_EXTRACTVALUE: for (u32 i = 0; i < in.n; i++) { Val v = getv(st, f, in.ops[0], (u32)in.imm + i); f->regs[in.dst + i] = v; } break;
    case I_INSERTVALUE: {
        std::vector<Val> t; for (u32 i = 0; i < in.n; i++) t.push_back(getv(st, f, in.ops[0], i));
        for (u32 i = 0; i < in.ops[1].n; i++) t[in.imm + i] = getv(st, f, in.ops[1], i);
        for (u32 i = 0; i < in.n; i++) f->regs[in.dst + i] = t[i];
        break;
    }
    case I_FREEZE: for (u32 i = 0; i < in.n; i++) { Val v = getv(st, f, in.ops[0], i); f->regs[in.dst + i] = v; } break;
    case I_FENCE: break;
    case I_ATOMICRMW: {
        u64 a = addr_of(st, getv(st, f, in.ops[0])); f = st.top(); Val o = load(st, a, in.w), v = getv(st, f, in.ops[1]), n;
        if (in.text == "xchg") n = v;
        else if (in.text == "add") n = bin(st, E_ADD, o, v, in.w);
        else if (in.text == "sub") n = bin(st, 100, o, v, in.w);
        else if (in.text == "and") n = bin(st, E_AND, o, v, in.w);
        else if (in.text == "or") n = bin(st, E_OR, o, v, in.w);
        else if (in.text == "xor") n = bin(st, E_XOR, o, v, in.w);
        else throw Unsupported("atomicrmw " + in.text);
        store(st, a, n, in.w); f->regs[in.dst] = o; break;
    }
    case I_CMPXCHG: {
        u64 a = addr_of(st, getv(st, f, in.ops[0])); f = st.top(); Val o = load(st, a, in.w), x = getv(st, f, in.ops[1]);
        Expr *c = mk_bin(E_EQ, E(o, in.w), E(x, in.w)); bool eq = branch(st, c); f = st.top();
        if (eq) store(st, a, getv(st, f, in.ops[2]), in.w);
        f->regs[in.dst] = o; f->regs[in.dst + 1] = V(eq); break;
    }
    case I_INSERTEL: { u64 i = addr_of(st, getv(st, f, in.ops[2])); f = st.top(); std::vector<Val> t; for (u32 k = 0; k < in.n; k++) t.push_back(getv(st, f, in.ops[0], k)); t[i] = getv(st, f, in.ops[1]); for (u32 k = 0; k < in.n; k++) f->regs[in.dst + k] = t[k]; break; }
    case I_EXTRACTEL: { u64 i = addr_of(st, getv(st, f, in.ops[1])); f = st.top(); f->regs[in.dst] = getv(st, f, in.ops[0], (u32)i); break; }
    case I_SHUFFLE: { std::vector<Val> t; u32 n0 = in.ops[0].n; for (int m : in.mask) t.push_back((u32)m < n0 ? getv(st, f, in.ops[0], m) : getv(st, f, in.ops[1], m - n0)); for (u32 k = 0; k < in.n; k++) f->regs[in.dst + k] = t[k]; break; }
    case I_CALL: {
        if (!in.text.empty()) { // inline assembly: only the empty/pause forms
            if (in.text != "asm:" && in.text != "asm:pause") throw Unsupported("inline " + in.text);
            if (in.dst >= 0) throw Unsupported("inline asm with a result");
            break;
        }
        Func *fn = in.fn; size_t a0 = 0; int bi = in.bi;
        if (!fn) {
            u64 a = addr_of(st, getv(st, f, in.ops[0])); f = st.top(); fn = fn_at(a); a0 = 1;
            if (!fn) throw Violation{"memory", "call through an invalid function pointer"};
            if (fn->bi == -2) fn->bi = lookup_builtin(fn->name);
            bi = fn->bi;
        }
        std::vector<Val> args;
        for (size_t i = a0; i < in.ops.size(); i++) for (u32 k = 0; k < in.ops[i].n; k++) args.push_back(getv(st, f, in.ops[i], k));
        if (bi >= 0) {
            std::vector<Val> res;
            if (call_builtin(st, f, in, bi, fn, args, res)) return;
            f = st.top();
            if (in.dst >= 0) for (u32 i = 0; i < in.n && i < res.size(); i++) f->regs[in.dst + i] = res[i];
            break;
        }
        if (!fn->defined) throw Unsupported("call to undefined function " + fn->name);
        enter(st, fn, &in, args); return;
    }
    default: throw Unsupported("instruction: " + in.text);
    }
    f->pc++;
}

static void flush() { shm->instrs += g_instrs - g_flushed; g_flushed = g_instrs; }
static double last_handoff = 0;
static std::vector<pid_t> kids;
static void handoff() {
    if (pending.size() < 1 || opt_procs <= 1) return;
    if (shm->active.load() >= opt_procs) return;
    double t = now(); if (t - last_handoff < 0.003) return;
    int a = shm->active.load();
    while (a < opt_procs) if (shm->active.compare_exchange_weak(a, a + 1)) break;
    if (a >= opt_procs) return;
    last_handoff = t; flush();
    pid_t p = fork();
    if (p < 0) { shm->active--; return; }
    shm->workers++;
    if (p == 0) {
        kids.clear(); State *keep = pending.front();
        pending.clear(); pending.push_back(keep); // the others stay with the parent (leaked here)
        throw 1;
    }
    kids.push_back(p); delete pending.front(); pending.erase(pending.begin());
}
static bool stop() {
    if (now() - opt_start > opt_time) { shm->incomplete = 1; return true; }
    if (opt_maxpaths && shm->paths >= opt_maxpaths) { shm->incomplete = 2; return true; }
    if (shm->errors > 20) return true;
    if (shm->violations > 60) { return true; }
    return false;
}
static void finish_path(State &st, const char *how) {
    u64 n = ++shm->paths; if (st.steps > shm->maxsteps) shm->maxsteps = st.steps;
    if (st.preempts) return;
    bool take = shm->samples < (u64)opt_samples && (n <= 16 || n % 7 == 0 || !strcmp(how, "x"));
    if (take) {
        shm->samples++;
        std::string o; for (auto &x : st.obs) { u128 v = x.second.e ? ev(st, x.second.e) : x.second.c; if (!o.empty()) o += ","; o += "\"" + std::to_string((u64)v) + "\""; }
        emit("{\"type\":\"sample\",\"input\":\"" + hexin(st, st.model) + "\",\"obs\":[" + o + "]}");
    }
}
static void explore() {
again:
    try {
        while (!pending.empty()) {
            State *s = pending.back(); pending.pop_back(); use(*s);
            u64 k = 0; size_t np = pending.size();
            try {
                for (;;) {
                    step(*s);
                    if ((++k & 0xfff) == 0) { if (stop()) { flush(); return; } }
                    if (pending.size() != np || (k & 0x3ff) == 0) { handoff(); np = pending.size(); }
                    if (s->steps > opt_steps) throw Violation{"hang", "more than " + std::to_string(opt_steps) + " instructions on one path"};
                }
            }
            catch (PathEnd &) { if (s->fr.empty()) finish_path(*s, "end"); else shm->dead++; }
            catch (PathDead &) { shm->dead++; }
            catch (Violation &v) { use(*s); report(*s, v.kind, v.msg, s->model); }
            catch (Unsupported &e) { shm->errors++; emit("{\"type\":\"error\",\"msg\":" + jstr(e.what()) + ",\"at\":" + jstr(backtrace(*s)) + ",\"input\":\"" + hexin(*s, s->model) + "\"}"); }
            delete s; cur = nullptr; g_epoch++;
            if (stop()) { flush(); return; }
            handoff();
        }
    } catch (int) { goto again; } // in a fresh child: restart with its share
    flush();
}

int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&] { if (i + 1 >= argc) exit(3); return std::string(argv[++i]); };
        if (a == "--procs") opt_procs = atoi(val().c_str());
        else if (a == "--steps") opt_steps = strtoull(val().c_str(), 0, 10);
        else if (a == "--depth") opt_depth = (u32)atoi(val().c_str());
        else if (a == "--time") opt_time = atof(val().c_str());
        else if (a == "--samples") opt_samples = atoi(val().c_str());
        else if (a == "--max-paths") opt_maxpaths = strtoull(val().c_str(), 0, 10);
        else if (a == "--points") opt_points = (u32)atoi(val().c_str());
        else if (a == "--repo") opt_repo = val() + "/";
        else if (a == "--slow") opt_slow = atof(val().c_str());
        else if (a == "--cross") opt_cross = true;
        else if (a == "--out") opt_out = val();
        else if (a == "--entry") opt_entry = val();
        else opt_ll = a;
    }
    if (opt_ll.empty() || opt_entry.empty() || opt_out.empty()) { fprintf(stderr, "usage: sx --entry F --out O.jsonl [--procs N] [--steps N] [--time S] [--cross] module.ll\n"); return 3; }
    struct rlimit rl = {256u << 20, 256u << 20}; (void)rl;
    out_fd = open(opt_out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (out_fd < 0) { perror("out"); return 3; }
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shm->active = 1; shm->workers = 1;
    opt_start = now(); pid_t root = getpid();
    try {
        ir_load(opt_ll.c_str());
        z3_init();
        for (auto f : g_funcs) if (f && f->name.size() > 24 && f->name.compare(f->name.size() - 24, 24, "9Formatter12pad_integral") == 0 && f->defined) fn_pad_integral = f;
        { auto h = g_fnames.find("sx_preempt"); if (h != g_fnames.end() && h->second->defined) fn_hook = h->second; }
        auto it = g_fnames.find(opt_entry); if (it == g_fnames.end() || !it->second->defined) { fprintf(stderr, "no function %s\n", opt_entry.c_str()); return 3; }
        State *s = new State;
        for (auto g : g_globals) { std::vector<u8> b; ir_init_global(g, b); Obj *o = obj_new(b.size()); memcpy(o->data, b.data(), b.size()); o->ro = g->constant; s->mem.addat(objid(g->addr), o); }
        s->mem.next = std::max<u32>(s->mem.next, (u32)g_globals.size() + 2);
        use(*s);
        enter(*s, it->second, nullptr, {});
        pending.push_back(s);
    } catch (Unsupported &e) { fprintf(stderr, "sx: %s\n", e.what()); return 3; }
    explore();
    shm->active--;
    bool bad = false;
    for (pid_t p : kids) { int st = 0; if (waitpid(p, &st, 0) < 0 || !WIFEXITED(st) || WEXITSTATUS(st)) bad = true; }
    if (bad) { shm->errors++; emit("{\"type\":\"error\",\"msg\":\"a worker process died\"}"); }
    if (getpid() != root) _exit(0);
    // functions and source lines encoded
    std::set<std::string> fns; std::map<std::string, std::set<int>> lines;
    for (u32 i = 0; i < (1u << 22); i++) if (shm->dbg[i]) {
        u32 md = i; int k = 0;
        while (md && k++ < 30) { u32 inl; Loc l = loc1(md, inl); if (!l.fn.empty()) fns.insert(l.file + ":" + l.fn); if (l.line) lines[l.file].insert(l.line); md = inl; }
    }
    std::string o = "{\"type\":\"summary\"";
    auto num = [&](const char *k, u64 v) { o += std::string(",\"") + k + "\":" + std::to_string(v); };
    num("paths", shm->paths); num("assumed_away", shm->dead); num("forks", shm->forks); num("instructions", shm->instrs); num("symbolic_branches", shm->branches);
    num("asserts", shm->asserts); num("asserts_const", shm->asserts_const); num("asserts_solver", shm->asserts_solver);
    num("z3_queries", shm->z3q); num("z3_sat", shm->z3sat); num("z3_unsat", shm->z3unsat); num("z3_cached", shm->z3cache); num("z3_ms", shm->z3ns / 1000000);
    num("byte_domain_queries", shm->domq); num("byte_domain_unsat", shm->domunsat); num("cross_checked", shm->crossq);
    num("violations", shm->violations); num("errors", shm->errors); num("incomplete", shm->incomplete); num("max_depth", shm->maxdepth); num("max_steps", shm->maxsteps); num("max_constraints", shm->maxresid); num("workers", shm->workers);
    char t[64]; snprintf(t, 64, ",\"wall_s\":%.2f", now() - opt_start); o += t;
    o += ",\"covers\":["; bool fst = true; for (int i = 0; i < 4096; i++) if (shm->cover[i]) { if (!fst) o += ","; o += std::to_string(i); fst = false; } o += "]";
    o += ",\"functions\":["; fst = true; for (auto &f : fns) if (f.find("/rustc/") != 0 && f.find("/lib/rustlib/") == std::string::npos && f.find("/.cargo/") == std::string::npos) { if (!fst) o += ","; o += jstr(f); fst = false; } o += "]";
    o += ",\"lines\":{"; fst = true; for (auto &f : lines) if (f.first.find("/rustc/") != 0 && f.first.find("/lib/rustlib/") == std::string::npos && f.first.find("/.cargo/") == std::string::npos) { if (!fst) o += ","; o += jstr(f.first) + ":["; bool g = true; for (int l : f.second) { if (!g) o += ","; o += std::to_string(l); g = false; } o += "]"; fst = false; } o += "}}";
    emit(o);
    return 0;
}
