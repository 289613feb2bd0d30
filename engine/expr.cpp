#include "expr.h"
u32 g_epoch = 1;
static u32 next_id = 1;
u64 num_exprs() { return next_id; }

// ---- arena and tables
static char *arena = nullptr; static size_t arena_left = 0;
static void *aalloc(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if (arena_left < n) { arena_left = 1 << 20; arena = (char *)aligned_alloc(16, arena_left); }
    void *p = arena; arena += n; arena_left -= n; return p;
}
static std::vector<Sup *> sup_table; static std::unordered_map<u64, std::vector<Sup *>> sup_map;
static const Sup *mk_sup(const u64 *w) {
    u64 h = 1469598103934665603ull;
    for (int i = 0; i < MAXV / 64; i++) h = (h ^ w[i]) * 1099511628211ull;
    auto &v = sup_map[h];
    for (auto s : v) if (!memcmp(s->w, w, sizeof s->w)) return s;
    Sup *s = new Sup; memcpy(s->w, w, sizeof s->w); s->count = 0; s->single = -1;
    for (int i = 0; i < MAXV; i++) if (w[i / 64] >> (i % 64) & 1) { s->count++; s->single = i; }
    if (s->count != 1) s->single = -1;
    v.push_back(s); return s;
}
static const Sup *sup_union(const Sup *a, const Sup *b) {
    if (a == b || b->count == 0) return a;
    if (a->count == 0) return b;
    u64 w[MAXV / 64]; for (int i = 0; i < MAXV / 64; i++) w[i] = a->w[i] | b->w[i];
    return mk_sup(w);
}
static const Sup *empty_sup() { static const Sup *s = nullptr; if (!s) { u64 w[MAXV / 64] = {0}; s = mk_sup(w); } return s; }

struct Key { Op op; u16 w; u32 aux; Expr *a, *b, *c; u128 cv; };
static inline u64 hkey(const Key &k) {
    u64 h = (u64)k.op * 0x9E3779B97F4A7C15ull + k.w * 0xC2B2AE3D27D4EB4Full + k.aux * 0x165667B19E3779F9ull;
    auto mix = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
    mix(k.a ? k.a->id : 0); mix(k.b ? k.b->id : 0); mix(k.c ? k.c->id : 0); mix((u64)k.cv); mix((u64)(k.cv >> 64));
    return h;
}
static std::vector<Expr *> table(1 << 16, nullptr); static size_t tcount = 0;
static Expr *intern(const Key &k) {
    size_t m = table.size() - 1, i = hkey(k) & m;
    while (Expr *e = table[i]) {
        if (e->op == k.op && e->w == k.w && e->aux == k.aux && e->a == k.a && e->b == k.b && e->c == k.c && e->cv == k.cv) return e;
        i = (i + 1) & m;
    }
    Expr *e = (Expr *)aalloc(sizeof(Expr));
    e->op = k.op; e->w = k.w; e->aux = k.aux; e->a = k.a; e->b = k.b; e->c = k.c; e->cv = k.cv;
    e->id = next_id++; e->epoch = 0; e->z = nullptr; e->tt = nullptr; e->ev = 0;
    const Sup *s = empty_sup();
    if (k.op == E_VAR) { u64 w[MAXV / 64] = {0}; w[k.aux / 64] |= 1ull << (k.aux % 64); s = mk_sup(w); }
    else { if (k.a) s = k.a->sup; if (k.b) s = sup_union(s, k.b->sup); if (k.c) s = sup_union(s, k.c->sup); }
    e->sup = s;
    table[i] = e;
    if (++tcount * 2 > table.size()) {
        std::vector<Expr *> old; old.swap(table); table.assign(old.size() * 2, nullptr);
        size_t mm = table.size() - 1;
        for (auto x : old) if (x) {
            Key kk{x->op, x->w, x->aux, x->a, x->b, x->c, x->cv}; size_t j = hkey(kk) & mm;
            while (table[j]) j = (j + 1) & mm; table[j] = x;
        }
    }
    return e;
}
static Expr *raw(Op op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u32 aux = 0) {
    return intern(Key{op, (u16)w, aux, a, b, c, 0});
}
Expr *mk_const(u128 v, unsigned w) { return intern(Key{E_CONST, (u16)w, 0, 0, 0, 0, v & maskw(w)}); }
Expr *mk_var(unsigned i) { return intern(Key{E_VAR, 8, i, 0, 0, 0, 0}); }

u128 fold(Op op, u128 a, u128 b, unsigned w, bool &ok) {
    ok = true; u128 m = maskw(w); a &= m; b &= m;
    switch (op) {
    case E_ADD: return (a + b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: if (!b) { ok = false; return 0; } return a / b;
    case E_UREM: if (!b) { ok = false; return 0; } return a % b;
    case E_SDIV: if (!b) { ok = false; return 0; } { i128 x = sextw(a, w), y = sextw(b, w); if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case E_SREM: if (!b) { ok = false; return 0; } { i128 x = sextw(a, w), y = sextw(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case E_ASHR: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextw(a, w) < sextw(b, w);
    case E_SLE: return sextw(a, w) <= sextw(b, w);
    default: ok = false; return 0;
    }
}

Expr *mk_not(Expr *a) {
    if (isc(a)) return mk_const(~a->cv, a->w);
    if (a->w == 1) {
        if (a->op == E_ULT) return mk_bin(E_ULE, a->b, a->a);
        if (a->op == E_ULE) return mk_bin(E_ULT, a->b, a->a);
        if (a->op == E_SLT) return mk_bin(E_SLE, a->b, a->a);
        if (a->op == E_SLE) return mk_bin(E_SLT, a->b, a->a);
    }
    return mk_bin(E_XOR, a, mk_const(~(u128)0, a->w));
}

Expr *mk_extract(Expr *a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isc(a)) return mk_const(a->cv >> lo, w);
    switch (a->op) {
    case E_EXTRACT: return mk_extract(a->a, a->aux + lo, w);
    case E_CONCAT: {
        unsigned lw = a->b->w;
        if (lo >= lw) return mk_extract(a->a, lo - lw, w);
        if (lo + w <= lw) return mk_extract(a->b, lo, w);
        return mk_concat(mk_extract(a->a, 0, lo + w - lw), mk_extract(a->b, lo, lw - lo));
    }
    case E_AND: case E_OR: case E_XOR: return mk_bin(a->op, mk_extract(a->a, lo, w), mk_extract(a->b, lo, w));
    case E_SEXT:
        if (lo + w <= a->a->w) return mk_extract(a->a, lo, w);
        if (lo == 0 && w > a->a->w) return mk_sext(a->a, w);
        break;
    case E_ITE:
        if (isc(a->b) || isc(a->c)) return mk_ite(a->a, mk_extract(a->b, lo, w), mk_extract(a->c, lo, w));
        break;
    case E_ADD: case E_MUL:
        if (lo == 0) return mk_bin(a->op, mk_extract(a->a, 0, w), mk_extract(a->b, 0, w));
        break;
    default: break;
    }
    return raw(E_EXTRACT, w, a, nullptr, nullptr, lo);
}
Expr *mk_concat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (w > 128) throw Unsupported("integer wider than 128 bits");
    if (isc(hi) && isc(lo)) return mk_const(hi->cv << lo->w | lo->cv, w);
    // right-nested canonical form: concat(concat(a,b),c) -> concat(a, concat(b,c))
    if (hi->op == E_CONCAT) return mk_concat(hi->a, mk_concat(hi->b, lo));
    Expr *lh = lo->op == E_CONCAT ? lo->a : lo;
    Expr *merged = nullptr;
    if (isc(hi) && isc(lh)) merged = mk_const(hi->cv << lh->w | lh->cv, hi->w + lh->w);
    else if (hi->op == E_EXTRACT && lh->op == E_EXTRACT && hi->a == lh->a && hi->aux == lh->aux + lh->w)
        merged = mk_extract(hi->a, lh->aux, hi->w + lh->w);
    if (merged) return lo->op == E_CONCAT ? mk_concat(merged, lo->b) : merged;
    return raw(E_CONCAT, w, hi, lo);
}
Expr *mk_zext(Expr *a, unsigned w) { return w == a->w ? a : mk_concat(mk_const(0, w - a->w), a); }
Expr *mk_sext(Expr *a, unsigned w) {
    if (w == a->w) return a;
    if (isc(a)) return mk_const((u128)sextw(a->cv, a->w), w);
    if (a->op == E_CONCAT && isc(a->a) && !(a->a->cv >> (a->a->w - 1) & 1)) return mk_zext(a, w);
    if (a->op == E_SEXT) return mk_sext(a->a, w);
    if (a->w == 1) return mk_ite(a, mk_const(~(u128)0, w), mk_const(0, w));
    return raw(E_SEXT, w, a);
}
Expr *mk_ite(Expr *c, Expr *a, Expr *b) {
    if (isc(c)) return c->cv ? a : b;
    if (a == b) return a;
    if (c->op == E_XOR && isc(c->b)) return mk_ite(c->a, b, a); // c is not(x)
    if (a->w == 1) {
        if (isc(a) && isc(b)) return a->cv ? c : mk_not(c);
        if (isc(a)) return a->cv ? mk_bin(E_OR, c, b) : mk_bin(E_AND, mk_not(c), b);
        if (isc(b)) return b->cv ? mk_bin(E_OR, mk_not(c), a) : mk_bin(E_AND, c, a);
    }
    if (a->op == E_ITE && a->a == c) a = a->b;
    if (b->op == E_ITE && b->a == c) b = b->c;
    if (a == b) return a;
    if (a->op == E_CONCAT && b->op == E_CONCAT && isc(a->a) && isc(b->a) && a->a == b->a)
        return mk_concat(a->a, mk_ite(c, a->b, b->b));
    return raw(E_ITE, a->w, c, a, b);
}
static void pieces(Expr *e, std::vector<Expr *> &out) { // low to high
    while (e->op == E_CONCAT) { pieces(e->b, out); e = e->a; }
    out.push_back(e);
}
// bitwise op on operands where at least one is a concat or a constant with structure
static Expr *piecewise(Op op, Expr *a, Expr *b) {
    std::vector<Expr *> pa, pb; pieces(a, pa); pieces(b, pb);
    // split constants into runs of equal bits where that helps
    auto split = [](std::vector<Expr *> &v) {
        std::vector<Expr *> o;
        for (auto e : v) {
            if (!isc(e)) { o.push_back(e); continue; }
            unsigned i = 0;
            while (i < e->w) {
                unsigned bit = (unsigned)(e->cv >> i) & 1, j = i;
                while (j < e->w && ((unsigned)(e->cv >> j) & 1) == bit) j++;
                o.push_back(mk_const(bit ? ~(u128)0 : 0, j - i)); i = j;
            }
        }
        v.swap(o);
    };
    split(pa); split(pb);
    size_t i = 0, j = 0; unsigned oi = 0, oj = 0; Expr *res = nullptr;
    while (i < pa.size() && j < pb.size()) {
        unsigned n = std::min(pa[i]->w - oi, pb[j]->w - oj);
        Expr *x = mk_extract(pa[i], oi, n), *y = mk_extract(pb[j], oj, n), *r;
        u128 m = maskw(n);
        if (isc(x)) std::swap(x, y);
        if (isc(y)) {
            if (isc(x)) { bool ok; r = mk_const(fold(op, x->cv, y->cv, n, ok), n); }
            else if (y->cv == 0) r = op == E_AND ? mk_const(0, n) : x;
            else if (y->cv == m) r = op == E_AND ? x : op == E_OR ? mk_const(m, n) : raw(E_XOR, n, x, y);
            else return nullptr;
        } else if (x == y) r = op == E_XOR ? mk_const(0, n) : x;
        else { if (x->id < y->id) std::swap(x, y); r = raw(op, n, x, y); }
        res = res ? mk_concat(r, res) : r;
        oi += n; oj += n;
        if (oi == pa[i]->w) { i++; oi = 0; }
        if (oj == pb[j]->w) { j++; oj = 0; }
    }
    return res;
}
static unsigned hi_zeros(Expr *e) { // known-zero high bits
    if (isc(e)) { unsigned n = 0; while (n < e->w && !(e->cv >> (e->w - 1 - n) & 1)) n++; return n; }
    if (e->op == E_CONCAT && isc(e->a)) { unsigned n = hi_zeros(e->a); return n == e->a->w ? n + hi_zeros(e->b) : n; }
    return 0;
}
Expr *mk_bin(Op op, Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
    if (isc(a) && isc(b)) {
        bool ok; u128 r = fold(op, a->cv, b->cv, w, ok);
        if (ok) return mk_const(r, (op >= E_EQ && op <= E_SLE) ? 1 : w);
        throw Unsupported("division by constant zero");
    }
    bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
    if (comm && (isc(a) || (!isc(b) && a->id < b->id))) std::swap(a, b); // constants on the right
    u128 m = maskw(w);
    switch (op) {
    case E_ADD:
        if (isc(b)) {
            if (b->cv == 0) return a;
            if (a->op == E_ADD && isc(a->b)) return mk_bin(E_ADD, a->a, mk_const(a->b->cv + b->cv, w));
            if (a->op == E_ITE && isc(a->b) && isc(a->c)) return mk_ite(a->a, mk_const(a->b->cv + b->cv, w), mk_const(a->c->cv + b->cv, w));
        } else {
            if (a->op == E_ADD && isc(a->b)) return mk_bin(E_ADD, mk_bin(E_ADD, a->a, b), a->b);
            if (b->op == E_ADD && isc(b->b)) return mk_bin(E_ADD, mk_bin(E_ADD, a, b->a), b->b);
            // x + ~x = -1 (arises from x - x)
            if ((a->op == E_XOR && isc(a->b) && a->b->cv == m && a->a == b) || (b->op == E_XOR && isc(b->b) && b->b->cv == m && b->a == a)) return mk_const(m, w);
        }
        break;
    case E_MUL:
        if (isc(b)) {
            if (b->cv == 0) return b;
            if (b->cv == 1) return a;
            if ((b->cv & (b->cv - 1)) == 0) { unsigned s = 0; while (!(b->cv >> s & 1)) s++; return mk_bin(E_SHL, a, mk_const(s, w)); }
        }
        break;
    case E_UDIV:
        if (isc(b)) {
            if (b->cv == 1) return a;
            if (b->cv && (b->cv & (b->cv - 1)) == 0) { unsigned s = 0; while (!(b->cv >> s & 1)) s++; return mk_bin(E_LSHR, a, mk_const(s, w)); }
            if (b->cv) { unsigned hz = std::min(hi_zeros(a), hi_zeros(b)); if (hz && hz < w) return mk_zext(mk_bin(E_UDIV, mk_extract(a, 0, w - hz), mk_extract(b, 0, w - hz)), w); }
        }
        break;
    case E_UREM:
        if (isc(b) && b->cv) {
            if ((b->cv & (b->cv - 1)) == 0) return mk_bin(E_AND, a, mk_const(b->cv - 1, w));
            unsigned hz = std::min(hi_zeros(a), hi_zeros(b)); if (hz && hz < w) return mk_zext(mk_bin(E_UREM, mk_extract(a, 0, w - hz), mk_extract(b, 0, w - hz)), w);
        }
        break;
    case E_SHL:
        if (isc(b)) { if (b->cv == 0) return a; if (b->cv >= w) return mk_const(0, w); unsigned s = (unsigned)b->cv; return mk_concat(mk_extract(a, 0, w - s), mk_const(0, s)); }
        if (isc(a) && a->cv == 0) return a;
        break;
    case E_LSHR:
        if (isc(b)) { if (b->cv == 0) return a; if (b->cv >= w) return mk_const(0, w); unsigned s = (unsigned)b->cv; return mk_zext(mk_extract(a, s, w - s), w); }
        if (isc(a) && a->cv == 0) return a;
        break;
    case E_ASHR:
        if (isc(b)) { if (b->cv == 0) return a; unsigned s = b->cv >= w ? w - 1 : (unsigned)b->cv; return mk_sext(mk_extract(a, s, w - s), w); }
        break;
    case E_AND: case E_OR: case E_XOR:
        if (a == b) return op == E_XOR ? mk_const(0, w) : a;
        if (isc(b)) {
            if (op == E_AND) { if (b->cv == 0) return b; if (b->cv == m) return a; }
            if (op == E_OR) { if (b->cv == 0) return a; if (b->cv == m) return b; }
            if (op == E_XOR) {
                if (b->cv == 0) return a;
                if (a->op == E_XOR && isc(a->b)) return mk_bin(E_XOR, a->a, mk_const(a->b->cv ^ b->cv, w));
                if (w == 1) {
                    if (a->op == E_ULT) return mk_bin(E_ULE, a->b, a->a);
                    if (a->op == E_ULE) return mk_bin(E_ULT, a->b, a->a);
                    if (a->op == E_SLT) return mk_bin(E_SLE, a->b, a->a);
                    if (a->op == E_SLE) return mk_bin(E_SLT, a->b, a->a);
                }
            }
        }
        if (w == 1) {
            if (a->op == E_XOR && isc(a->b) && a->a == b) return mk_const(op == E_AND ? 0 : 1, 1);
            if (b->op == E_XOR && isc(b->b) && b->a == a) return mk_const(op == E_AND ? 0 : 1, 1);
            if ((op == E_AND || op == E_OR) && ((a->op == op && (a->a == b || a->b == b)))) return a;
            if ((op == E_AND || op == E_OR) && ((b->op == op && (b->a == a || b->b == a)))) return b;
        }
        if (w > 1 && (a->op == E_CONCAT || b->op == E_CONCAT || (isc(b) && op != E_XOR))) { Expr *r = piecewise(op, a, b); if (r) return r; }
        break;
    case E_EQ:
        if (a == b) return mk_const(1, 1);
        if (w == 1) { if (isc(b)) return b->cv ? a : mk_not(a); return mk_not(mk_bin(E_XOR, a, b)); }
        if (isc(b)) {
            switch (a->op) {
            case E_CONCAT: {
                Expr *lo = mk_bin(E_EQ, a->b, mk_extract(b, 0, a->b->w));
                if (isc(lo) && !lo->cv) return lo;
                Expr *hi = mk_bin(E_EQ, a->a, mk_extract(b, a->b->w, a->a->w));
                return mk_bin(E_AND, hi, lo);
            }
            case E_ADD: if (isc(a->b)) return mk_bin(E_EQ, a->a, mk_const(b->cv - a->b->cv, w)); break;
            case E_XOR: if (isc(a->b)) return mk_bin(E_EQ, a->a, mk_const(b->cv ^ a->b->cv, w)); break;
            case E_SEXT: { u128 lo = b->cv & maskw(a->a->w); if (((u128)sextw(lo, a->a->w) & m) != b->cv) return mk_const(0, 1); return mk_bin(E_EQ, a->a, mk_const(lo, a->a->w)); }
            case E_ITE:
                if (isc(a->b) || isc(a->c)) return mk_ite(a->a, mk_bin(E_EQ, a->b, b), mk_bin(E_EQ, a->c, b));
                break;
            default: break;
            }
        } else {
            if (a->op == E_ADD && b->op == E_ADD && isc(a->b) && isc(b->b)) {
                if (a->a == b->a) return mk_const(a->b->cv == b->b->cv, 1);
            }
            if (a->op == E_ADD && isc(a->b) && a->a == b) return mk_const(0, 1);
            if (b->op == E_ADD && isc(b->b) && b->a == a) return mk_const(0, 1);
            if (a->op == E_CONCAT && b->op == E_CONCAT && a->a->w == b->a->w)
                return mk_bin(E_AND, mk_bin(E_EQ, a->a, b->a), mk_bin(E_EQ, a->b, b->b));
        }
        break;
    case E_ULT:
        if (a == b) return mk_const(0, 1);
        if (isc(b)) { if (b->cv == 0) return mk_const(0, 1); if (b->cv == 1) return mk_bin(E_EQ, a, mk_const(0, w)); if (b->cv == m) return mk_not(mk_bin(E_EQ, a, b)); }
        if (isc(a)) { if (a->cv == m) return mk_const(0, 1); if (a->cv == 0) return mk_not(mk_bin(E_EQ, b, a)); }
        goto ucmp;
    case E_ULE:
        if (a == b) return mk_const(1, 1);
        if (isc(a)) { if (a->cv == 0) return mk_const(1, 1); return mk_bin(E_ULT, mk_const(a->cv - 1, w), b); }
        if (isc(b)) { if (b->cv == m) return mk_const(1, 1); return mk_bin(E_ULT, a, mk_const(b->cv + 1, w)); }
    ucmp: {
        unsigned za = hi_zeros(a), zb = hi_zeros(b), z = std::min(za, zb);
        if (z && z < w) return mk_bin(op, mk_extract(a, 0, w - z), mk_extract(b, 0, w - z));
        // one side fits in fewer bits than the other side's lowest value
        if (isc(b) && za && za < w && b->cv >> (w - za)) return mk_const(1, 1);
        if (isc(a) && zb && zb < w && a->cv >> (w - zb)) return mk_const(0, 1);
        if (a->op == E_ITE && isc(b) && (isc(a->b) || isc(a->c))) return mk_ite(a->a, mk_bin(op, a->b, b), mk_bin(op, a->c, b));
        if (b->op == E_ITE && isc(a) && (isc(b->b) || isc(b->c))) return mk_ite(b->a, mk_bin(op, a, b->b), mk_bin(op, a, b->c));
        break;
    }
    case E_SLT: case E_SLE:
        if (a == b) return mk_const(op == E_SLE, 1);
        // both known non-negative: unsigned comparison
        if (hi_zeros(a) && hi_zeros(b)) return mk_bin(op == E_SLT ? E_ULT : E_ULE, a, b);
        if (a->op == E_ITE && isc(b) && (isc(a->b) || isc(a->c))) return mk_ite(a->a, mk_bin(op, a->b, b), mk_bin(op, a->c, b));
        if (a->op == E_SEXT && isc(b) && op == E_SLT) {
            unsigned n = a->a->w; i128 c = sextw(b->cv, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1;
            if (c > hi) return mk_const(1, 1);
            if (c <= lo) return mk_const(0, 1);
            return mk_bin(E_SLT, a->a, mk_const((u128)c, n));
        }
        break;
    default: break;
    }
    return raw(op, (op >= E_EQ && op <= E_SLE) ? 1 : w, a, b);
}

u128 eval_expr(Expr *e, const u8 *as) {
    if (e->op == E_CONST) return e->cv;
    if (e->op == E_VAR) return as[e->aux];
    if (e->epoch == g_epoch) return e->ev;
    u128 r; bool ok;
    switch (e->op) {
    case E_ITE: r = eval_expr(e->a, as) ? eval_expr(e->b, as) : eval_expr(e->c, as); break;
    case E_SEXT: r = (u128)sextw(eval_expr(e->a, as), e->a->w) & maskw(e->w); break;
    case E_EXTRACT: r = (eval_expr(e->a, as) >> e->aux) & maskw(e->w); break;
    case E_CONCAT: r = eval_expr(e->a, as) << e->b->w | eval_expr(e->b, as); break;
    default: {
        u128 x = eval_expr(e->a, as), y = eval_expr(e->b, as);
        r = fold(e->op, x, y, e->a->w, ok);
        if (!ok) r = (e->op == E_UDIV) ? maskw(e->w) : (e->op == E_SDIV ? (sextw(x, e->w) < 0 ? 1 : maskw(e->w)) : x); // SMT-LIB semantics; never relied on
    }
    }
    e->epoch = g_epoch; e->ev = r; return r;
}
std::string show(Expr *e, int d) {
    static const char *n[] = {"const", "var", "add", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "eq", "ult", "ule", "slt", "sle", "ite", "sext", "extract", "concat"};
    char buf[64];
    if (e->op == E_CONST) { snprintf(buf, 64, "0x%llx:%d", (unsigned long long)e->cv, e->w); return buf; }
    if (e->op == E_VAR) { snprintf(buf, 64, "b%u", e->aux); return buf; }
    if (!d) return "..";
    std::string s = std::string("(") + n[e->op];
    if (e->op == E_EXTRACT) { snprintf(buf, 64, "[%u+%u]", e->aux, e->w); s += buf; }
    for (Expr *x : {e->a, e->b, e->c}) if (x) s += " " + show(x, d - 1);
    return s + ")";
}
