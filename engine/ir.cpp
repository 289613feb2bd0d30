#include "ir.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
std::vector<Func *> g_funcs;
std::unordered_map<std::string, Func *> g_fnames;
std::vector<Global *> g_globals;
std::unordered_map<std::string, Global *> g_gnames;
std::unordered_map<u32, size_t> g_md;
std::string g_text;

Type *t_int(unsigned w) {
    static std::unordered_map<unsigned, Type *> m;
    Type *&t = m[w];
    if (!t) {
        t = new Type{Type::Int}; t->w = w; t->size = (w + 7) / 8;
        u64 a = 1; while (a < t->size) a *= 2;
        t->size = a; t->align = std::min<u64>(a, 16);
        if (w > 128) t->size = (w + 7) / 8;
    }
    return t;
}
Type *t_ptr() { static Type *t = nullptr; if (!t) { t = new Type{Type::Ptr}; t->w = 64; t->size = t->align = 8; } return t; }
static Type *t_simple(Type::K k, unsigned w, u64 sz) { static std::map<std::pair<int, unsigned>, Type *> m; Type *&t = m[{k, w}]; if (!t) { t = new Type{k}; t->w = w; t->size = sz; t->align = sz ? sz : 1; } return t; }
static Type *t_seq(Type::K k, u64 n, Type *el) {
    static std::map<std::tuple<int, u64, Type *>, Type *> m;
    Type *&t = m[{k, n, el}];
    if (!t) {
        t = new Type{k}; t->n = n; t->el = el; t->align = el->align;
        t->size = n * el->size;
        if (k == Type::Vector) { t->size = el->w == 1 ? (n + 7) / 8 : n * el->w / 8; t->align = std::max<u64>(1, std::min<u64>(t->size, 16)); }
    }
    return t;
}
static Type *t_struct(const std::vector<Type *> &f, bool packed) {
    static std::map<std::pair<std::vector<Type *>, bool>, Type *> m;
    Type *&t = m[{f, packed}];
    if (!t) {
        t = new Type{Type::Struct}; t->f = f;
        u64 off = 0, al = 1;
        for (auto x : f) {
            u64 a = packed ? 1 : x->align; al = std::max(al, a);
            off = (off + a - 1) / a * a; t->fo.push_back(off); off += x->size;
        }
        t->align = al; t->size = (off + al - 1) / al * al;
    }
    return t;
}
static void add_leaves(Type *t, u64 off, std::vector<std::pair<u64, unsigned>> &o) {
    switch (t->k) {
    case Type::Int: case Type::Ptr: case Type::FP: o.push_back({off, t->w}); break;
    case Type::Array: for (u64 i = 0; i < t->n; i++) add_leaves(t->el, off + i * t->el->size, o); break;
    case Type::Vector: for (u64 i = 0; i < t->n; i++) o.push_back({t->el->w == 1 ? ~(u64)0 : off + i * t->el->w / 8, t->el->w}); break;
    case Type::Struct: for (size_t i = 0; i < t->f.size(); i++) add_leaves(t->f[i], off + t->fo[i], o); break;
    default: break;
    }
}
const std::vector<std::pair<u64, unsigned>> &leaves(Type *t) {
    if (!t->leaves_done) { add_leaves(t, 0, t->leaves); t->leaves_done = true; }
    return t->leaves;
}
unsigned nleaves(Type *t) { return t->k == Type::Void ? 0 : (unsigned)leaves(t).size(); }

[[noreturn]] static void bad(const std::string &m) { throw Unsupported("IR: " + m); }

static std::unordered_map<std::string, Type *> g_named;
static std::unordered_map<std::string, size_t> g_named_off;

struct FnCtx {
    Func *f;
    std::unordered_map<std::string, std::pair<int, Type *>> slots;
    std::unordered_map<std::string, int> blocks;
    int slot(const std::string &n, Type *t) {
        auto it = slots.find(n);
        if (it != slots.end()) {
            if (it->second.second != t && nleaves(it->second.second) != nleaves(t)) bad("type clash for %" + n);
            return it->second.first;
        }
        int s = f->nslots; f->nslots += nleaves(t);
        slots[n] = {s, t}; return s;
    }
    int block(const std::string &n) {
        auto it = blocks.find(n); if (it != blocks.end()) return it->second;
        int b = (int)blocks.size(); blocks[n] = b; return b;
    }
};

struct P {
    const char *s, *end;
    FnCtx *fc = nullptr;
    void ws() { while (s < end && (*s == ' ' || *s == '\t' || *s == '\n')) s++; }
    bool peek(const char *t) { ws(); size_t n = strlen(t); return (size_t)(end - s) >= n && !memcmp(s, t, n); }
    bool acc(const char *t) { if (peek(t)) { s += strlen(t); return true; } return false; }
    static bool idc(char c) { return isalnum((u8)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
    bool peekw(const char *t) { ws(); size_t n = strlen(t); return (size_t)(end - s) >= n && !memcmp(s, t, n) && ((size_t)(end - s) == n || !idc(s[n])); }
    bool accw(const char *t) { if (peekw(t)) { s += strlen(t); return true; } return false; }
    void need(const char *t) { if (!acc(t)) bad(std::string("expected '") + t + "' at: " + std::string(s, std::min<size_t>(80, end - s))); }
    std::string word() { ws(); const char *b = s; while (s < end && idc(*s)) s++; return std::string(b, s); }
    std::string ident() { // after % or @
        if (s < end && *s == '"') { s++; const char *b = s; while (*s != '"') s++; std::string r(b, s); s++; return unesc(r); }
        const char *b = s; while (s < end && idc(*s)) s++; return std::string(b, s);
    }
    static std::string unesc(const std::string &r) {
        std::string o;
        for (size_t i = 0; i < r.size(); i++) {
            if (r[i] == '\\' && i + 2 < r.size() && isxdigit((u8)r[i + 1]) && isxdigit((u8)r[i + 2])) { o += (char)strtol(r.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
            else if (r[i] == '\\' && i + 1 < r.size() && r[i + 1] == '\\') { o += '\\'; i++; }
            else o += r[i];
        }
        return o;
    }
    void skip_parens() { // at '('
        int d = 0;
        do { if (*s == '"') { s++; while (*s != '"') s++; } else if (*s == '(') d++; else if (*s == ')') d--; s++; } while (d && s < end);
    }
    bool at_type() {
        ws();
        if (s >= end) return false;
        if (*s == '{' || *s == '[' || *s == '<' || *s == '%') return true;
        if (*s == 'i' && isdigit((u8)s[1])) return true;
        return peekw("ptr") || peekw("void") || peekw("float") || peekw("double") || peekw("half") || peekw("fp128") || peekw("bfloat") || peekw("metadata") || peekw("label") || peekw("token") || peekw("x86_fp80");
    }
    void attrs() { // skip words until a type
        while (!at_type()) {
            ws(); if (s >= end) bad("no type");
            if (*s == '"') { s++; while (*s != '"') s++; s++; if (*s == '=') { s++; if (*s == '"') { s++; while (*s != '"') s++; s++; } } continue; }
            if (*s == '#') { s++; word(); continue; }
            std::string w = word();
            if (w.empty()) bad("attribute? " + std::string(s, std::min<size_t>(60, end - s)));
            if (*s == '(') skip_parens();
            else if (w == "align" || w == "addrspace") word();
            else if (w == "cc") word();
        }
    }
    Type *type() {
        ws(); Type *t = nullptr;
        if (acc("{")) { std::vector<Type *> f; if (!acc("}")) { do f.push_back(type()); while (acc(",")); need("}"); } t = t_struct(f, false); }
        else if (acc("<{")) { std::vector<Type *> f; if (!acc("}>")) { do f.push_back(type()); while (acc(",")); need("}>"); } t = t_struct(f, true); }
        else if (acc("[")) { u64 n = strtoull(word().c_str(), 0, 10); need("x"); Type *e = type(); need("]"); t = t_seq(Type::Array, n, e); }
        else if (acc("<")) { u64 n = strtoull(word().c_str(), 0, 10); need("x"); Type *e = type(); need(">"); t = t_seq(Type::Vector, n, e); }
        else if (*s == '%') {
            s++; std::string n = ident();
            auto it = g_named.find(n);
            if (it != g_named.end()) t = it->second;
            else { auto o = g_named_off.find(n); if (o == g_named_off.end()) bad("type %" + n); P q{g_text.data() + o->second, g_text.data() + g_text.size()}; t = g_named[n] = q.type(); }
        } else {
            std::string w = word();
            if (w[0] == 'i' && w.size() > 1 && isdigit((u8)w[1])) t = t_int(atoi(w.c_str() + 1));
            else if (w == "ptr") { t = t_ptr(); if (peek("addrspace")) { word(); skip_parens(); } }
            else if (w == "void") t = t_simple(Type::Void, 0, 0);
            else if (w == "half" || w == "bfloat") t = t_simple(Type::FP, 16, 2);
            else if (w == "float") t = t_simple(Type::FP, 32, 4);
            else if (w == "double") t = t_simple(Type::FP, 64, 8);
            else if (w == "fp128" || w == "x86_fp80") t = t_simple(Type::FP, 128, 16);
            else if (w == "metadata" || w == "label" || w == "token") t = t_simple(Type::Other, 1, 0);
            else bad("type '" + w + "' at " + std::string(s, std::min<size_t>(60, end - s)));
        }
        ws();
        if (*s == '(' ) { skip_parens(); return t_simple(Type::Func, 0, 0); } // function type (in calls of varargs)
        return t;
    }
    static u128 num(const std::string &w) {
        bool neg = w[0] == '-'; u128 v = 0;
        if (w[0] == 'u' || w[0] == 's') { // u0x / s0x
            for (size_t i = 3; i < w.size(); i++) v = v * 16 + (isdigit((u8)w[i]) ? w[i] - '0' : (tolower(w[i]) - 'a' + 10));
            return v;
        }
        for (size_t i = neg; i < w.size(); i++) { if (!isdigit((u8)w[i])) bad("number " + w); v = v * 10 + (w[i] - '0'); }
        return neg ? -v : v;
    }
    u64 global_addr(const std::string &n) {
        auto f = g_fnames.find(n);
        if (f != g_fnames.end()) {
            return f->second->idx ? FUNC_BASE + 16ull * f->second->idx : 0;
        }
        auto g = g_gnames.find(n); if (g == g_gnames.end()) bad("global @" + n);
        if (g->second->external && g->second->weak) return 0;
        return g->second->addr;
    }
    // constant of type t, appended as leaves
    void cst(Type *t, std::vector<Val> &o) {
        ws();
        auto put = [&](u128 v) { Val x; x.c = v & maskw(t->w); o.push_back(x); };
        if (peekw("zeroinitializer") || peekw("undef") || peekw("poison") || peekw("null") || peekw("none")) { word(); for (unsigned i = 0; i < nleaves(t); i++) o.push_back(Val()); return; }
        if (accw("splat")) { need("("); Type *e = type(); std::vector<Val> v; cst(e, v); need(")"); for (u64 i = 0; i < t->n; i++) o.push_back(v[0]); return; }
        if (t->k == Type::Int && accw("true")) { put(1); return; }
        if (t->k == Type::Int && accw("false")) { put(0); return; }
        if (*s == 'c' && s[1] == '"') {
            s += 2; const char *b = s; while (*s != '"') s++; std::string r = unesc(std::string(b, s)); s++;
            for (char c : r) { Val v; v.c = (u8)c; o.push_back(v); }
            return;
        }
        if (t->k == Type::Array || t->k == Type::Vector || t->k == Type::Struct) {
            const char *cl = nullptr;
            if (acc("<{")) cl = "}>"; else if (acc("{")) cl = "}"; else if (acc("[")) cl = "]"; else if (acc("<")) cl = ">"; else bad("aggregate constant " + std::string(s, 60));
            if (acc(cl)) return;
            do { Type *e = type(); cst(e, o); } while (acc(","));
            need(cl); return;
        }
        if (*s == '@') { s++; put(global_addr(ident())); return; }
        if (t->k == Type::FP) { word(); Val v; v.c = 0; o.push_back(v); return; }
        if (isdigit((u8)*s) || *s == '-' || ((*s == 'u' || *s == 's') && s[1] == '0' && s[2] == 'x')) { put(num(word())); return; }
        std::string w = word();
        if (w == "getelementptr") {
            while (!peek("(")) { word(); if (peek("(") && 0) break; ws(); if (*s == '(' && s > g_text.data() && !memcmp(s - 7, "inrange", 7)) skip_parens(); }
            need("("); Type *bt = type(); need(","); Type *pt = type(); std::vector<Val> b; cst(pt, b); u64 a = (u64)b[0].c;
            bool first = true; Type *cur = bt;
            while (acc(",")) {
                Type *it = type(); std::vector<Val> iv; cst(it, iv); i128 ix = sextw(iv[0].c, it->w);
                if (first) { a += (u64)(ix * (i128)cur->size); first = false; }
                else if (cur->k == Type::Struct) { a += cur->fo[(size_t)ix]; cur = cur->f[(size_t)ix]; }
                else { cur = cur->el; a += (u64)(ix * (i128)cur->size); }
            }
            need(")"); put(a); return;
        }
        if (w == "inttoptr" || w == "ptrtoint" || w == "trunc" || w == "bitcast" || w == "ptrtoaddr") {
            need("("); Type *st = type(); std::vector<Val> v; cst(st, v); accw("to"); type(); need(")"); put(v[0].c); return;
        }
        if (w == "add" || w == "sub" || w == "xor") {
            while (!peek("(")) word();
            need("("); Type *a = type(); std::vector<Val> x, y; cst(a, x); need(","); Type *b = type(); cst(b, y); need(")");
            put(w == "add" ? x[0].c + y[0].c : w == "sub" ? x[0].c - y[0].c : x[0].c ^ y[0].c); return;
        }
        bad("constant '" + w + "' " + std::string(s, std::min<size_t>(60, end - s)));
    }
    Opnd value(Type *t) {
        ws(); Opnd o;
        if (*s == '%') { s++; std::string n = ident(); o.slot = fc->slot(n, t); o.n = nleaves(t); return o; }
        if (t->k == Type::Other) { // metadata operand: skip
            if (*s == '!') { s++; if (*s == '"') { s++; while (*s != '"') s++; s++; } else word(); if (*s == '(' || *s=='{') { while (*s != ')' && *s != '}') s++; s++; } }
            else { Type *tt = type(); value(tt); }
            o.n = 0; return o;
        }
        std::vector<Val> v; cst(t, v);
        o.n = (u32)v.size(); o.cv = new Val[v.size() + 1]; std::copy(v.begin(), v.end(), o.cv);
        return o;
    }
};

std::string md_text(u32 n) {
    auto it = g_md.find(n); if (it == g_md.end()) return "";
    size_t e = g_text.find('\n', it->second); return g_text.substr(it->second, e - it->second);
}

void ir_load(const char *path) {
    FILE *f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
    fseek(f, 0, SEEK_END); size_t n = ftell(f); rewind(f);
    g_text.resize(n); if (fread(&g_text[0], 1, n, f) != n) exit(3); fclose(f);
    const char *b = g_text.data(), *e = b + n;
    g_funcs.push_back(nullptr); // index 0 is null
    bool infn = false;
    std::vector<std::pair<Global *, size_t>> gl;
    for (const char *p = b; p < e;) {
        const char *nl = (const char *)memchr(p, '\n', e - p); if (!nl) nl = e;
        if (infn) { if (*p == '}') infn = false; }
        else if (*p == '!' && isdigit((u8)p[1])) { g_md[(u32)atoi(p + 1)] = p - b; }
        else if (*p == '%') { P q{p + 1, nl}; std::string nm = q.ident(); q.need("="); q.need("type"); g_named_off[nm] = q.s - b; }
        else if (*p == '@') {
            P q{p + 1, nl}; Global *g = new Global; g->name = q.ident(); q.need("=");
            for (;;) {
                std::string w = q.word();
                if (w == "global") break;
                if (w == "constant") { g->constant = true; break; }
                if (w == "alias") { g->external = true; break; }
                if (w == "external" || w == "extern_weak") g->external = true;
                if (w == "extern_weak") g->weak = true;
                if (*q.s == '(') q.skip_parens();
                if (w.empty()) bad("global " + g->name);
            }
            g->init = q.s - b; g_globals.push_back(g); g_gnames[g->name] = g;
        } else if (nl - p > 8 && (!memcmp(p, "define ", 7) || !memcmp(p, "declare ", 8))) {
            bool def = p[2] == 'f';
            const char *a = (const char *)memchr(p, '@', nl - p);
            P q{a + 1, nl}; Func *fn = new Func; fn->name = q.ident(); fn->defined = def; fn->hdr = p - b;
            bool weak = !def && g_text.compare(p - b, 19, "declare extern_weak") == 0;
            fn->body = nl - b + 1;
            if (weak) fn->idx = 0; else { fn->idx = (int)g_funcs.size(); g_funcs.push_back(fn); }
            g_fnames[fn->name] = fn;
            if (def) infn = true;
        }
        p = nl + 1;
    }
    u64 id = 1;
    for (auto g : g_globals) g->addr = (id++) << 36; // see OFFB in sx.cpp
    for (auto g : g_globals) { P q{g_text.data() + g->init, g_text.data() + n}; g->ty = q.type(); g->init = q.s - g_text.data(); }
}
void ir_init_global(Global *g, std::vector<u8> &out) {
    out.assign(g->ty->size, 0);
    if (g->external) return;
    P q{g_text.data() + g->init, g_text.data() + g_text.size()};
    std::vector<Val> v; q.cst(g->ty, v);
    auto &ls = leaves(g->ty);
    if (ls.size() != v.size()) bad("initialiser of @" + g->name);
    for (size_t i = 0; i < v.size(); i++) for (unsigned k = 0; k < (ls[i].second + 7) / 8; k++) out[ls[i].first + k] = (u8)(v[i].c >> (8 * k));
}

static void parse_inst(P &p, Inst &in, FnCtx &fc) {
    std::string res;
    p.ws();
    if (*p.s == '%') { p.s++; res = p.ident(); p.need("="); }
    std::string op = p.word();
    auto setdst = [&](Type *t) { in.ty = t; in.n = nleaves(t); in.w = t->k == Type::Vector ? t->el->w : t->w; if (!res.empty()) in.dst = fc.slot(res, t); };
    static const std::map<std::string, int> bins = {{"add", E_ADD}, {"sub", 100}, {"mul", E_MUL}, {"udiv", E_UDIV}, {"sdiv", E_SDIV}, {"urem", E_UREM}, {"srem", E_SREM}, {"shl", E_SHL}, {"lshr", E_LSHR}, {"ashr", E_ASHR}, {"and", E_AND}, {"or", E_OR}, {"xor", E_XOR}};
    static const std::map<std::string, int> casts = {{"trunc", C_TRUNC}, {"zext", C_ZEXT}, {"sext", C_SEXT}, {"ptrtoint", C_COPY}, {"inttoptr", C_COPY}, {"bitcast", C_COPY}, {"ptrtoaddr", C_COPY}};
    static const std::map<std::string, int> preds = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}};
    auto flags = [&] { while (p.accw("nuw") || p.accw("nsw") || p.accw("exact") || p.accw("disjoint") || p.accw("nneg") || p.accw("samesign") || p.accw("inbounds") || p.accw("nusw")) ; };
    if (op == "tail" || op == "musttail" || op == "notail") op = p.word();
    auto b = bins.find(op);
    if (b != bins.end()) {
        flags(); Type *t = p.type(); in.op = I_BIN; in.sub = (u8)b->second;
        in.ops.push_back(p.value(t)); p.need(","); in.ops.push_back(p.value(t)); setdst(t); return;
    }
    auto c = casts.find(op);
    if (c != casts.end()) {
        flags(); Type *t = p.type(); in.op = I_CAST; in.sub = (u8)c->second; in.ops.push_back(p.value(t)); p.need("to"); Type *d = p.type(); in.ty2 = t; setdst(d);
        return;
    }
    if (op == "icmp") {
        in.op = I_ICMP; flags(); in.sub = (u8)preds.at(p.word()); Type *t = p.type(); in.ops.push_back(p.value(t)); p.need(","); in.ops.push_back(p.value(t)); in.ty2 = t;
        Type *r = t->k == Type::Vector ? t_seq(Type::Vector, t->n, t_int(1)) : t_int(1); setdst(r); return;
    }
    if (op == "select") {
        in.op = I_SELECT; Type *ct = p.type(); in.ops.push_back(p.value(ct)); p.need(","); Type *t = p.type(); in.ops.push_back(p.value(t)); p.need(","); p.type(); in.ops.push_back(p.value(t)); setdst(t);
        in.flag = ct->k == Type::Vector; return;
    }
    if (op == "br") {
        if (p.accw("label")) { in.op = I_BR; p.need("%"); in.blk.push_back(fc.block(p.ident())); return; }
        Type *t = p.type(); in.op = I_CBR; in.ops.push_back(p.value(t));
        p.need(","); p.need("label"); p.need("%"); in.blk.push_back(fc.block(p.ident())); p.need(","); p.need("label"); p.need("%"); in.blk.push_back(fc.block(p.ident())); return;
    }
    if (op == "switch") {
        in.op = I_SWITCH; Type *t = p.type(); in.ops.push_back(p.value(t)); in.w = t->w; p.need(","); p.need("label"); p.need("%"); in.blk.push_back(fc.block(p.ident())); p.need("[");
        while (!p.acc("]")) { Type *ct = p.type(); std::vector<Val> v; p.cst(ct, v); in.cases.push_back(v[0].c); p.need(","); p.need("label"); p.need("%"); in.blk.push_back(fc.block(p.ident())); }
        return;
    }
    if (op == "ret") { in.op = I_RET; Type *t = p.type(); in.ty = t; in.n = nleaves(t); if (t->k != Type::Void) in.ops.push_back(p.value(t)); return; }
    if (op == "unreachable") { in.op = I_UNREACHABLE; return; }
    if (op == "alloca") {
        in.op = I_ALLOCA; Type *t = p.type(); in.ty2 = t; in.imm = t->size;
        if (p.acc(",")) { if (!p.peekw("align") && !p.peek("!")) { Type *ct = p.type(); in.ops.push_back(p.value(ct)); } }
        setdst(t_ptr()); return;
    }
    if (op == "load") {
        in.op = I_LOAD; in.point = p.accw("atomic"); p.accw("volatile"); Type *t = p.type(); p.need(","); p.type(); in.ops.push_back(p.value(t_ptr())); setdst(t); return;
    }
    if (op == "store") {
        in.op = I_STORE; in.point = p.accw("atomic"); p.accw("volatile"); Type *t = p.type(); in.ops.push_back(p.value(t)); p.need(","); p.type(); in.ops.push_back(p.value(t_ptr())); in.ty = t; in.n = nleaves(t); return;
    }
    if (op == "getelementptr") {
        in.op = I_GEP; flags(); if (p.peek("inrange")) { p.word(); p.skip_parens(); }
        Type *bt = p.type(); p.need(","); Type *pt = p.type(); if (pt->k != Type::Ptr) bad("vector gep"); in.ops.push_back(p.value(pt));
        bool first = true; Type *cur = bt; i128 off = 0;
        while (p.acc(",")) {
            if (p.peek("!")) { p.s--; break; }
            Type *it = p.type(); u64 sc; Type *nx = cur;
            Opnd o = p.value(it);
            if (first) { sc = cur->size; first = false; }
            else if (cur->k == Type::Struct) { size_t i = (size_t)o.cv[0].c; off += cur->fo[i]; cur = cur->f[i]; continue; }
            else { nx = cur->el; sc = nx->size; }
            cur = nx;
            if (o.slot < 0) off += sextw(o.cv[0].c, it->w) * (i128)sc;
            else { in.ops.push_back(o); in.scale.push_back(sc); in.sw.push_back(it->w); }
        }
        in.imm = (u64)off; setdst(t_ptr()); return;
    }
    if (op == "phi") {
        in.op = I_PHI; Type *t = p.type(); setdst(t);
        do { p.need("["); in.ops.push_back(p.value(t)); p.need(","); p.need("%"); in.blk.push_back(fc.block(p.ident())); p.need("]"); } while (p.acc(","));
        return;
    }
    if (op == "extractvalue" || op == "insertvalue") {
        Type *t = p.type(); in.ops.push_back(p.value(t)); Type *vt = nullptr;
        if (op[0] == 'i') { p.need(","); vt = p.type(); in.ops.push_back(p.value(vt)); }
        Type *cur = t; u64 first = 0;
        while (p.acc(",")) {
            if (p.peek("!")) break;
            u64 i = strtoull(p.word().c_str(), 0, 10);
            if (cur->k == Type::Struct) { for (u64 k = 0; k < i; k++) first += nleaves(cur->f[k]); cur = cur->f[i]; }
            else { first += i * nleaves(cur->el); cur = cur->el; }
        }
        in.imm = first;
        if (vt) { in.op = I_INSERTVALUE; setdst(t); } else { in.op = I_EXTRACTVALUE; setdst(cur); }
        return;
    }
    if (op == "call") {
        in.op = I_CALL; p.attrs(); Type *rt = p.type();
        if (rt->k == Type::Func) { // varargs: "call i64 (i64, ...) @syscall(...)": type() swallowed the signature; the return type came before it
            const char *save = p.s; (void)save;
        }
        in.ty = rt;
        p.ws();
        if (p.peekw("asm")) { // inline assembly
            in.text = "asm"; p.word(); while (p.accw("sideeffect") || p.accw("alignstack") || p.accw("inteldialect") || p.accw("unwind")) ;
            p.ws(); p.s++; const char *a = p.s; while (*p.s != '"') p.s++; in.text = "asm:" + std::string(a, p.s); p.s++; p.need(","); p.ws(); p.s++; while (*p.s != '"') p.s++; p.s++;
        } else if (*p.s == '@') {
            p.s++; std::string n = p.ident(); auto it = g_fnames.find(n); if (it == g_fnames.end()) bad("callee @" + n);
            in.fn = it->second;
            if (in.fn->bi == -2) in.fn->bi = lookup_builtin(n);
            in.bi = in.fn->bi;
        } else in.ops.push_back(p.value(t_ptr()));
        p.need("(");
        size_t fixed = in.ops.size();
        (void)fixed;
        if (!p.acc(")")) {
            do {
                p.attrs(); Type *t = p.type(); const char *q;
                for (;;) { // parameter attributes
                    p.ws(); q = p.s;
                    if (*p.s == '%' || *p.s == '@' || *p.s == '!' || *p.s == '-' || isdigit((u8)*p.s) || *p.s == '{' || *p.s == '[' || *p.s == '<' || *p.s == '"') break;
                    if (t->k == Type::Other) break;
                    std::string w = p.word();
                    static const std::unordered_set<std::string> cw = {"null", "undef", "poison", "zeroinitializer", "true", "false", "getelementptr", "inttoptr", "ptrtoint", "splat", "c", "sub", "add", "trunc", "xor", "none", "bitcast", "ptrtoaddr"};
                    if (cw.count(w)) { p.s = q; break; }
                    if (w.empty()) bad("call argument");
                    if (*p.s == '(') p.skip_parens(); else if (w == "align") p.word();
                }
                in.ops.push_back(p.value(t));
                in.sw.push_back(t->w);
            } while (p.acc(","));
            p.need(")");
        }
        if (rt->k == Type::Func) { // recover the return type of a varargs callee
            const char *h = g_text.data() + in.fn->hdr + (in.fn->defined ? 6 : 7); P q{h, g_text.data() + g_text.size()}; q.attrs(); in.ty = rt = q.type();
        }
        if (rt->k != Type::Void) setdst(rt); else { in.n = 0; }
        return;
    }
    if (op == "atomicrmw") {
        in.op = I_ATOMICRMW; in.point = true; p.accw("volatile"); in.text = p.word(); p.type(); in.ops.push_back(p.value(t_ptr())); p.need(","); Type *t = p.type(); in.ops.push_back(p.value(t)); setdst(t); return;
    }
    if (op == "cmpxchg") {
        in.op = I_CMPXCHG; in.point = true; p.accw("weak"); p.accw("volatile"); p.type(); in.ops.push_back(p.value(t_ptr())); p.need(","); Type *t = p.type(); in.ops.push_back(p.value(t)); p.need(","); p.type(); in.ops.push_back(p.value(t));
        in.ty2 = t; setdst(t_struct({t, t_int(1)}, false)); in.w = t->w; return;
    }
    if (op == "fence") { in.op = I_FENCE; return; }
    if (op == "freeze") { in.op = I_FREEZE; Type *t = p.type(); in.ops.push_back(p.value(t)); setdst(t); return; }
    if (op == "insertelement") { in.op = I_INSERTEL; Type *t = p.type(); in.ops.push_back(p.value(t)); p.need(","); Type *e = p.type(); in.ops.push_back(p.value(e)); p.need(","); Type *it = p.type(); in.ops.push_back(p.value(it)); setdst(t); return; }
    if (op == "extractelement") { in.op = I_EXTRACTEL; Type *t = p.type(); in.ops.push_back(p.value(t)); p.need(","); Type *it = p.type(); in.ops.push_back(p.value(it)); setdst(t->el); return; }
    if (op == "shufflevector") {
        in.op = I_SHUFFLE; Type *t = p.type(); in.ops.push_back(p.value(t)); p.need(","); p.type(); in.ops.push_back(p.value(t)); p.need(","); Type *mt = p.type(); std::vector<Val> m; p.cst(mt, m);
        for (auto &v : m) in.mask.push_back((int)v.c);
        setdst(t_seq(Type::Vector, mt->n, t->el)); return;
    }
    // anything else: allowed to exist, not to be executed
    in.op = I_BAD; in.text = op;
    if (!res.empty()) { // give it a slot with the best type guess
        flags(); while (p.accw("fast") || p.accw("nnan") || p.accw("reassoc") || p.accw("ninf") || p.accw("nsz") || p.accw("arcp") || p.accw("contract") || p.accw("afn")) ;
        try {
            if (op == "fcmp") { setdst(t_int(1)); }
            else { Type *t = p.type(); if (op == "fptoui" || op == "fptosi" || op == "uitofp" || op == "sitofp" || op == "fpext" || op == "fptrunc") { p.value(t); p.need("to"); t = p.type(); } setdst(t); }
        } catch (Unsupported &) {}
    }
}

void ir_parse(Func *f) {
    if (f->parsed) return;
    f->parsed = true;
    FnCtx fc; fc.f = f;
    const char *b = g_text.data();
    const char *h = b + f->hdr + 6, *he = b + f->body;
    P p{h, he, &fc};
    p.attrs(); f->ret = p.type(); p.ws();
    if (*p.s != '@') bad("define " + f->name);
    p.s++; p.ident(); p.need("(");
    unsigned unnamed = 0;
    if (!p.acc(")")) {
        do {
            if (p.acc("...")) break;
            p.attrs(); Type *t = p.type();
            for (;;) {
                p.ws();
                if (*p.s == '%' || *p.s == ',' || *p.s == ')') break;
                if (*p.s == '"') { p.s++; while (*p.s != '"') p.s++; p.s++; continue; }
                std::string w = p.word(); if (w.empty()) bad("parameters of " + f->name);
                if (*p.s == '(') p.skip_parens(); else if (w == "align") p.word();
            }
            std::string nm;
            if (p.acc("%")) { nm = p.ident(); if (nm == std::to_string(unnamed)) unnamed++; } else nm = std::to_string(unnamed++);
            if (t->k != Type::Other) { int s = fc.slot(nm, t); f->params.push_back({s, nleaves(t)}); }
        } while (p.acc(","));
        p.need(")");
    }
    { const char *d = (const char *)memmem(p.s, he - p.s, "!dbg !", 6); if (d) f->sub = (u32)atoi(d + 6); }
    // body lines
    const char *l = he; bool first = true;
    std::vector<std::pair<int, Inst>> all;
    int cur = -1;
    for (;;) {
        const char *nl = strchr(l, '\n');
        if (*l == '}') break;
        const char *q = l; while (*q == ' ') q++;
        if (q == nl || *q == ';' || *q == '#') { l = nl + 1; continue; }
        if (q == l) { // label
            P lp{l, nl, &fc}; std::string n;
            if (*l == '"') { n = lp.ident(); } else { const char *c = l; while (*c != ':') c++; n = std::string(l, c); }
            cur = fc.block(n);
            if (first && cur != 0) { bad("entry block order in " + f->name); }
            first = false; l = nl + 1; continue;
        }
        if (first) { cur = fc.block(std::to_string(unnamed)); first = false; }
        const char *ie = nl;
        if (nl > q && (strncmp(q, "switch ", 7) == 0)) { while (true) { const char *t = ie; while (t > q && (t[-1] == ' ')) t--; // find closing bracket line
                const char *m = (const char *)memchr(q, ']', ie - q); if (m) break; ie = strchr(ie + 1, '\n'); } }
        const char *me = ie; if (!memmem(q, ie - q, "metadata !", 10)) if (const char *m = (const char *)memmem(q, ie - q, ", !", 3)) me = m; // attached metadata is not part of the instruction
        P ip{q, me, &fc}; Inst in;
        try { parse_inst(ip, in, fc); }
        catch (Unsupported &e) { in.op = I_BAD; in.text = std::string(e.what()) + " in: " + std::string(q, std::min<size_t>(120, ie - q)); }
        { const char *d = (const char *)memmem(q, ie - q, "!dbg !", 6); if (d) in.dbg = (u32)atoi(d + 6); }
        all.push_back({cur, std::move(in)});
        l = ie + 1;
    }
    f->blocks.resize(fc.blocks.size());
    for (auto &b : fc.blocks) f->blocks[b.second].name = b.first;
    for (auto &x : all) { Block &bl = f->blocks[x.first]; if (x.second.op == I_PHI) bl.nphi++; bl.in.push_back(std::move(x.second)); }
    // phi edges
    for (size_t bi = 0; bi < f->blocks.size(); bi++)
        for (u32 k = 0; k < f->blocks[bi].nphi; k++) {
            Inst &in = f->blocks[bi].in[k];
            for (size_t j = 0; j < in.blk.size(); j++) f->edges[{in.blk[j], (int)bi}].push_back({in.dst, in.n, in.ops[j]});
        }
    // a phi listing the same predecessor twice (switch) would be copied twice: harmless
}
