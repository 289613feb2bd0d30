// A small in-memory form of LLVM IR, read lazily from the text (.ll) file rustc/opt produced.
#pragma once
#include "expr.h"
#include <string_view>
#include <map>
#include <memory>

struct Val { u128 c = 0; Expr *e = nullptr; };

struct Type {
    enum K : u8 { Void, Int, Ptr, FP, Array, Struct, Vector, Func, Other } k;
    unsigned w = 0;      // bits of a scalar (Int, Ptr, FP)
    u64 n = 0;           // Array, Vector
    Type *el = nullptr;
    std::vector<Type *> f; // Struct
    std::vector<u64> fo;   // field offsets
    u64 size = 0, align = 1;
    bool leaves_done = false;
    std::vector<std::pair<u64, unsigned>> leaves; // (byte offset, bits), scalars in order
};
Type *t_int(unsigned w);
Type *t_ptr();
const std::vector<std::pair<u64, unsigned>> &leaves(Type *t);
unsigned nleaves(Type *t);

struct Opnd { int slot = -1; u32 n = 1; Val *cv = nullptr; };

enum IOp : u8 {
    I_BIN, I_ICMP, I_CAST, I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACHABLE, I_ALLOCA, I_LOAD, I_STORE, I_GEP,
    I_PHI, I_CALL, I_EXTRACTVALUE, I_INSERTVALUE, I_ATOMICRMW, I_CMPXCHG, I_FENCE, I_FREEZE,
    I_INSERTEL, I_EXTRACTEL, I_SHUFFLE, I_BAD
};
enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
enum CastK : u8 { C_TRUNC, C_ZEXT, C_SEXT, C_COPY };

struct Func;
struct Inst {
    IOp op = I_BAD;
    u8 sub = 0;
    bool flag = false;
    bool point = false;   // an atomic access: other threads may run before it
    int dst = -1;
    u32 n = 1;            // leaves of the result / operand
    unsigned w = 0;       // scalar width where there is one
    Type *ty = nullptr;   // value / accessed / result type
    Type *ty2 = nullptr;
    std::vector<Opnd> ops;
    std::vector<int> blk;
    std::vector<u128> cases;
    u64 imm = 0;
    std::vector<u64> scale;  // gep
    std::vector<unsigned> sw; // gep: width of each index
    std::vector<int> mask;
    Func *fn = nullptr;
    int bi = -1;          // builtin id
    u32 dbg = 0;
    std::string text;
};
struct Block { std::vector<Inst> in; u32 nphi = 0; std::string name; };
struct Func {
    std::string name;
    size_t body = 0, hdr = 0; // text offsets
    bool defined = false, parsed = false;
    int idx = 0;
    Type *ret = nullptr;
    u32 nslots = 0;
    std::vector<std::pair<int, u32>> params; // slot, leaves
    std::vector<Block> blocks;
    std::map<std::pair<int, int>, std::vector<std::tuple<int, u32, Opnd>>> edges;
    int bi = -2; // builtin id, -1 none, -2 not looked up
    u32 sub = 0; // DISubprogram
    bool entered = false;
};
struct Global { std::string name; u64 addr = 0; Type *ty = nullptr; bool constant = false, external = false, weak = false; size_t init = 0; };

extern std::vector<Func *> g_funcs;
extern std::unordered_map<std::string, Func *> g_fnames;
extern std::vector<Global *> g_globals;
extern std::unordered_map<std::string, Global *> g_gnames;
extern std::unordered_map<u32, size_t> g_md; // metadata number -> text offset
extern std::string g_text;

void ir_load(const char *path);
void ir_parse(Func *f);
// bytes and relocation-free contents of a global (addresses already resolved)
void ir_init_global(Global *g, std::vector<u8> &out);
static const u64 FUNC_BASE = 0x7000ull << 32;
int lookup_builtin(const std::string &name); // in sx.cpp; -1 if none
std::string md_text(u32 n);
