// Hash-consed bit-vector expressions over symbolic input bytes, with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <stdexcept>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

const int MAXV = 512; // symbolic input bytes per run
struct Sup {
    u64 w[MAXV / 64];
    int count;
    int single; // the variable if count == 1
};

enum Op : u8 {
    E_CONST, E_VAR,
    E_ADD, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
    E_AND, E_OR, E_XOR,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
    E_ITE, E_SEXT, E_EXTRACT, E_CONCAT
};

struct TT { u64 b[4]; }; // truth table of a width-1 expression over one byte

struct Expr {
    Op op;
    u16 w;
    u32 aux;
    Expr *a, *b, *c;
    u128 cv;
    u32 id;
    u32 epoch;
    u128 ev;
    const Sup *sup;
    void *z;
    TT *tt;
};

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

Expr *mk_const(u128 v, unsigned w);
Expr *mk_var(unsigned idx);
Expr *mk_bin(Op op, Expr *a, Expr *b);
Expr *mk_ite(Expr *c, Expr *a, Expr *b);
Expr *mk_zext(Expr *a, unsigned w);
Expr *mk_sext(Expr *a, unsigned w);
Expr *mk_extract(Expr *a, unsigned lo, unsigned w);
Expr *mk_concat(Expr *hi, Expr *lo);
Expr *mk_not(Expr *a);
static inline Expr *mk_sub(Expr *a, Expr *b);
u128 fold(Op op, u128 a, u128 b, unsigned w, bool &ok);
static inline bool isc(Expr *e) { return e->op == E_CONST; }
static inline Expr *mk_sub(Expr *a, Expr *b) {
    // a - b = a + (~b + 1)
    if (isc(b)) return mk_bin(E_ADD, a, mk_const(-b->cv, b->w));
    if (a == b) return mk_const(0, a->w);
    return mk_bin(E_ADD, a, mk_bin(E_ADD, mk_bin(E_XOR, b, mk_const(~(u128)0, b->w)), mk_const(1, b->w)));
}
extern u32 g_epoch;
u128 eval_expr(Expr *e, const u8 *assign); // caller bumps g_epoch when the assignment changes
std::string show(Expr *e, int depth = 6);
u64 num_exprs();
