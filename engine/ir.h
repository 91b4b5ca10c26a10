// Parser for the textual LLVM IR that rustc emits (subset).
#pragma once
#include "expr.h"
#include <memory>

struct Agg;
struct Val {          // concrete scalar (c), symbolic or wide scalar (e), aggregate (g)
    u64 c = 0;
    Expr *e = 0;
    Agg *g = 0;
};
struct Agg { std::vector<Val> v; };

struct Type {
    enum Kind { VOID, INT, PTR, FLOAT, ARRAY, VEC, STRUCT, OTHER } k;
    u32 bits = 0;            // scalars and vectors
    u64 n = 0;               // array / vector length
    Type *el = 0;
    std::vector<Type *> f;
    std::vector<u64> off;
    u64 size = 0, align = 1; // bytes
    bool scalar() const { return k == INT || k == PTR || k == FLOAT || k == VEC; }
};

struct Operand { int reg = -1; Val v; };

enum IOp : u8 {
    I_BIN, I_ICMP, I_FCMP, I_CAST_ZEXT, I_CAST_SEXT, I_CAST_TRUNC, I_BITCAST, I_SELECT, I_ALLOCA, I_LOAD, I_STORE, I_GEP,
    I_PHI, I_BR, I_CONDBR, I_SWITCH, I_RET, I_UNREACHABLE, I_CALL, I_EXTRACTVALUE, I_INSERTVALUE, I_EXTRACTELEM, I_INSERTELEM,
    I_SHUFFLE, I_RMW, I_CMPXCHG, I_FENCE, I_LANDINGPAD, I_FREEZE, I_OTHER
};
enum Pred { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE,
            F_FALSE, F_OEQ, F_OGT, F_OGE, F_OLT, F_OLE, F_ONE, F_ORD, F_UEQ, F_UGT, F_UGE, F_ULT, F_ULE, F_UNE, F_UNO, F_TRUE };

struct Function;
struct Inst {
    IOp op = I_OTHER;
    u8 sub = 0;                  // Op, Pred, rmw kind
    int dst = -1;
    Type *ty = 0, *ty2 = 0;
    std::vector<Operand> o;
    std::vector<int> idx;        // targets, aggregate indices, phi blocks, shuffle mask
    std::vector<u128> cases;
    u64 base = 0;                // gep constant part
    std::vector<u64> scale;      // gep scales for o[1..]
    std::vector<u32> gw;         // gep index widths
    Function *fn = 0;            // direct callee
    std::string name;            // callee name / text for unsupported
    std::vector<Type *> at;      // argument types
    int intr = -1;
};
struct Block { std::vector<Inst> in; };
struct Function {
    std::string name;
    size_t from = 0, to = 0;     // text of the definition, 0: declaration
    bool parsed = false, hit = false;
    int id = 0;
    int nregs = 0, nargs = 0;
    std::vector<Type *> argty;
    std::vector<Block> b;
    Type *ret = 0;
    bool noret = false;
};
struct Global {
    std::string name;
    size_t init = 0;             // text position of the initializer
    Type *ty = 0;
    bool constant = false, external = false;
    u32 slot = 0;
};

struct Module {
    std::string src;
    std::unordered_map<std::string, Function *> fns;
    std::vector<Function *> fnlist;
    std::unordered_map<std::string, Global *> globals;
    std::unordered_map<std::string, size_t> typedefs;
    std::unordered_map<std::string, Type *> typecache;
    std::vector<Global *> slots; // slot -> global
};
inline Module M;
static const u32 SLOT_BITS = 22;
static const u64 FN_BASE = 0x7f0000000000ull;
static const u32 HEAP0 = 1 << 16;

struct P {                       // cursor
    const char *p, *e;
    std::unordered_map<std::string, int> *regs = 0;
    [[noreturn]] void bad(const char *w) { unsupported(std::string("parse: ") + w + " at: " + std::string(p, std::min<size_t>(60, e - p))); }
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
    bool is(char c) { ws(); return p < e && *p == c; }
    bool eat(char c) { if (is(c)) { p++; return true; } return false; }
    void need(char c) { if (!eat(c)) { char m[] = "expected x"; m[9] = c; bad(m); } }
    static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
    std::string peekw() { ws(); const char *q = p; while (q < e && idc(*q)) q++; return std::string(p, q); }
    bool word(const char *w) { ws(); size_t n = strlen(w); if ((size_t)(e - p) >= n && !strncmp(p, w, n) && !(p + n < e && idc(p[n]))) { p += n; return true; } return false; }
    std::string getw() { std::string s = peekw(); p += s.size(); return s; }
    std::string name() { // after @ or %
        if (*p == '"') { const char *q = ++p; while (*p != '"') p++; std::string s(q, p); p++; return s; }
        const char *q = p; while (p < e && idc(*p)) p++; return std::string(q, p);
    }
    void skipParen() { // balanced, strings aware
        need('(');
        int d = 1;
        while (p < e && d) { if (*p == '"') { p++; while (*p != '"') p++; } else if (*p == '(') d++; else if (*p == ')') d--; p++; }
    }
    u64 num() { ws(); char *q; u64 v = strtoull(p, &q, 10); p = q; return v; }
};

inline Type *mkT(Type t) { return new Type(t); }
inline Type *intT(u32 n) {
    static std::unordered_map<u32, Type *> c;
    Type *&t = c[n];
    if (!t) {
        Type x; x.k = Type::INT; x.bits = n; x.size = (n + 7) / 8;
        u64 a = 1; while (a < x.size && a < 16) a <<= 1;
        x.align = a; x.size = (x.size + a - 1) / a * a;
        t = mkT(x);
    }
    return t;
}
inline Type *ptrT() { static Type *t = 0; if (!t) { Type x; x.k = Type::PTR; x.bits = 64; x.size = x.align = 8; t = mkT(x); } return t; }
inline void layout(Type &t, bool packed) {
    u64 o = 0; t.align = 1;
    for (Type *f : t.f) {
        u64 a = packed ? 1 : f->align;
        o = (o + a - 1) / a * a;
        t.off.push_back(o);
        o += f->size;
        if (a > t.align) t.align = a;
    }
    t.size = (o + t.align - 1) / t.align * t.align;
}
inline bool atType(P &p) {
    p.ws();
    char c = *p.p;
    if (c == '{' || c == '[' || c == '<' || c == '%') return true;
    if (c == 'i' && isdigit((unsigned char)p.p[1])) { const char *q = p.p + 1; while (isdigit((unsigned char)*q)) q++; return !P::idc(*q); }
    std::string w = p.peekw();
    return w == "ptr" || w == "void" || w == "float" || w == "double" || w == "half" || w == "metadata" || w == "label" || w == "token" || w == "fp128" || w == "x86_fp80";
}
inline Type *type(P &p) {
    p.ws();
    Type x;
    if (p.eat('{')) {
        x.k = Type::STRUCT;
        while (!p.eat('}')) { x.f.push_back(type(p)); p.eat(','); }
        layout(x, false);
        return mkT(x);
    }
    if (p.eat('[')) {
        x.k = Type::ARRAY; x.n = p.num();
        if (!p.word("x")) p.bad("array");
        x.el = type(p); p.need(']');
        x.size = x.n * x.el->size; x.align = x.el->align;
        return mkT(x);
    }
    if (p.eat('<')) {
        if (p.eat('{')) {
            x.k = Type::STRUCT;
            while (!p.eat('}')) { x.f.push_back(type(p)); p.eat(','); }
            p.need('>');
            layout(x, true);
            return mkT(x);
        }
        x.k = Type::VEC; x.n = p.num();
        if (!p.word("x")) p.bad("vector");
        x.el = type(p); p.need('>');
        x.bits = x.n * x.el->bits; x.size = (x.bits + 7) / 8; x.align = x.size;
        return mkT(x);
    }
    if (p.eat('%')) {
        std::string n = p.name();
        Type *&t = M.typecache[n];
        if (!t) {
            auto it = M.typedefs.find(n);
            if (it == M.typedefs.end()) p.bad("type name");
            P q{M.src.data() + it->second, M.src.data() + M.src.size()};
            Type *r = type(q);
            M.typecache[n] = r;
            return r;
        }
        return t;
    }
    std::string w = p.getw();
    if (w == "ptr") { if (p.word("addrspace")) p.skipParen(); return ptrT(); }
    if (w.size() > 1 && w[0] == 'i' && isdigit((unsigned char)w[1])) return intT(atoi(w.c_str() + 1));
    if (w == "void") { x.k = Type::VOID; return mkT(x); }
    if (w == "float") { x.k = Type::FLOAT; x.bits = 32; x.size = x.align = 4; return mkT(x); }
    if (w == "double") { x.k = Type::FLOAT; x.bits = 64; x.size = x.align = 8; return mkT(x); }
    x.k = Type::OTHER;
    return mkT(x);
}

inline Function *fnByName(const std::string &n) {
    auto it = M.fns.find(n);
    return it == M.fns.end() ? 0 : it->second;
}
inline u64 symAddr(const std::string &n) {
    if (Function *f = fnByName(n)) return FN_BASE + (u64)f->id * 16;
    auto it = M.globals.find(n);
    if (it == M.globals.end()) unsupported("unknown symbol " + n);
    Global *g = it->second;
    if (!g->slot) {
        if (M.slots.empty()) M.slots.push_back(0);
        g->slot = M.slots.size();
        if (g->slot >= HEAP0) unsupported("too many globals");
        M.slots.push_back(g);
    }
    return (u64)g->slot << SLOT_BITS;
}
inline Val kv(u64 c) { Val v; v.c = c; return v; }
inline Val zeroVal(Type *t) {
    if (t->k == Type::STRUCT || t->k == Type::ARRAY) {
        Val v; v.g = new Agg;
        for (size_t i = 0; i < (t->k == Type::ARRAY ? t->n : t->f.size()); i++) v.g->v.push_back(zeroVal(t->k == Type::ARRAY ? t->el : t->f[i]));
        return v;
    }
    if (t->bits > 64) { Val v; v.e = K(0, t->bits); return v; }
    return Val();
}
inline Val mkScalar(u128 x, u32 bits) {
    Val v;
    if (bits > 64) v.e = K(x, bits); else v.c = (u64)(x & maskw(bits));
    return v;
}
Operand value(P &p, Type *t);
inline Val constant(P &p, Type *t) {
    Operand o = value(p, t);
    if (o.reg >= 0) p.bad("constant expected");
    return o.v;
}
inline u128 scalarBits(const Val &v) { return v.e ? v.e->k : v.c; }
inline u64 gepOffset(Type *t, const std::vector<std::pair<Type *, Val>> &ix) {
    u64 off = 0;
    for (size_t i = 0; i < ix.size(); i++) {
        i64 v = (i64)sx(ix[i].second.c, ix[i].first->bits);
        if (i == 0) off += v * t->size;
        else if (t->k == Type::STRUCT) { off += t->off[v]; t = t->f[v]; }
        else { t = t->el; off += v * t->size; }
    }
    return off;
}
inline Operand value(P &p, Type *t) {
    p.ws();
    Operand r;
    char c = *p.p;
    if (c == '%') {
        p.p++;
        std::string n = p.name();
        if (!p.regs) p.bad("register in constant");
        auto it = p.regs->find(n);
        if (it != p.regs->end()) r.reg = it->second;
        else { int k = p.regs->size(); (*p.regs)[n] = k; r.reg = k; }
        return r;
    }
    if (c == '@') { p.p++; r.v = kv(symAddr(p.name())); return r; }
    if (c == '-' || isdigit((unsigned char)c)) {
        if (t->k == Type::FLOAT) {
            std::string s; const char *q = p.p;
            while (p.p < p.e && (P::idc(*p.p) || *p.p == '+')) p.p++;
            s.assign(q, p.p);
            double d; u64 b;
            if (s.size() > 2 && s[1] == 'x') { b = strtoull(s.c_str() + 2, 0, 16); memcpy(&d, &b, 8); }
            else d = atof(s.c_str());
            if (t->bits == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); r.v = kv(x); }
            else { memcpy(&b, &d, 8); r.v = kv(b); }
            return r;
        }
        bool neg = c == '-';
        if (neg) p.p++;
        u128 v = 0;
        while (isdigit((unsigned char)*p.p)) v = v * 10 + (*p.p++ - '0');
        if (neg) v = -v;
        r.v = mkScalar(v, t->bits);
        return r;
    }
    if (c == '{' || c == '[' || (c == '<' && p.p[1] == '{')) {
        bool vec = c == '<';
        if (vec) p.p++;
        p.p++;
        r.v.g = new Agg;
        while (!p.is('}') && !p.is(']')) { Type *et = type(p); r.v.g->v.push_back(constant(p, et)); p.eat(','); }
        p.p++;
        if (vec) p.need('>');
        return r;
    }
    if (c == '<') {
        p.p++;
        u128 v = 0; u32 sh = 0;
        while (!p.is('>')) { Type *et = type(p); Val x = constant(p, et); if (sh < 128) v |= scalarBits(x) << sh; sh += et->bits; p.eat(','); }
        p.p++;
        if (sh > 128) { // only shuffle masks; keep as aggregate of nothing
            return r;
        }
        r.v = mkScalar(v, t->bits);
        return r;
    }
    if (c == 'c' && p.p[1] == '"') {
        p.p += 2;
        r.v.g = new Agg;
        while (*p.p != '"') {
            u8 b = *p.p++;
            if (b == '\\') { char h[3] = {p.p[0], p.p[1], 0}; if (p.p[0] == '\\') { p.p++; } else { b = strtoul(h, 0, 16); p.p += 2; } }
            r.v.g->v.push_back(kv(b));
        }
        p.p++;
        return r;
    }
    std::string w = p.getw();
    if (w == "true") { r.v = kv(1); return r; }
    if (w == "false") { return r; }
    if (w == "null" ) return r;
    if (w == "undef" || w == "poison" || w == "zeroinitializer") { r.v = zeroVal(t); return r; }
    if (w == "splat") {
        p.need('(');
        Type *et = type(p);
        Val x = constant(p, et);
        p.need(')');
        u128 v = 0;
        if (t->bits <= 128) for (u64 i = 0; i < t->n; i++) v |= scalarBits(x) << (i * et->bits);
        r.v = mkScalar(v, t->bits > 128 ? 128 : t->bits);
        return r;
    }
    if (w == "getelementptr") {
        while (!p.is('(')) { p.getw(); if (p.is('(') && false) break; }
        // attributes such as inrange(..) come with their own parentheses
        const char *save = p.p;
        (void)save;
        p.need('(');
        P q = p;
        if (!atType(q)) { p.p = save; p.skipParen(); p.need('('); }
        Type *st = type(p); p.need(',');
        Type *pt = type(p); Val b = constant(p, pt);
        std::vector<std::pair<Type *, Val>> ix;
        while (p.eat(',')) { Type *it = type(p); Val v = constant(p, it); ix.push_back({it, v}); }
        p.need(')');
        r.v = kv(b.c + gepOffset(st, ix));
        return r;
    }
    if (w == "inttoptr" || w == "ptrtoint" || w == "bitcast" || w == "trunc" || w == "zext" || w == "ptrtoaddr") {
        p.need('(');
        Type *st = type(p); Val v = constant(p, st);
        if (!p.word("to")) p.bad("cast");
        Type *dt = type(p); p.need(')');
        r.v = mkScalar(scalarBits(v), dt->bits);
        return r;
    }
    if (w == "add" || w == "sub") {
        while (p.word("nuw") || p.word("nsw")) {}
        p.need('(');
        Type *t1 = type(p); Val a = constant(p, t1); p.need(',');
        Type *t2 = type(p); Val b = constant(p, t2); p.need(')');
        r.v = kv((w == "add" ? a.c + b.c : a.c - b.c) & (u64)maskw(t1->bits));
        return r;
    }
    p.p -= w.size();
    p.bad("value");
}
// skip parameter / return attributes
inline void attrs(P &p) {
    for (;;) {
        p.ws();
        if (p.p >= p.e) return;
        char c = *p.p;
        if (!isalpha((unsigned char)c) && c != '#' && c != '"') return;
        if (atType(p)) return;
        if (c == '#') { p.p++; p.getw(); continue; }
        if (c == '"') { p.p++; while (*p.p != '"') p.p++; p.p++; if (p.eat('=')) { p.need('"'); while (*p.p != '"') p.p++; p.p++; } continue; }
        std::string w = p.peekw();
        if (w == "true" || w == "false" || w == "null" || w == "undef" || w == "poison" || w == "zeroinitializer" || w == "splat" ||
            w == "getelementptr" || w == "inttoptr" || w == "ptrtoint" || w == "c" || w == "asm" || w == "to") return;
        p.p += w.size();
        if (w == "align") { if (!p.is('(')) { p.num(); continue; } }
        if (p.is('(')) p.skipParen();
    }
}

inline void loadModule(const char *path) {
    FILE *f = fopen(path, "rb");
    if (!f) { perror(path); exit(3); }
    fseek(f, 0, SEEK_END);
    size_t n = ftell(f);
    rewind(f);
    M.src.resize(n);
    if (fread(&M.src[0], 1, n, f) != n) exit(3);
    fclose(f);
    const char *s = M.src.data(), *e = s + n;
    for (const char *l = s; l < e;) {
        const char *nl = (const char *)memchr(l, '\n', e - l);
        if (!nl) nl = e;
        if (*l == '%') {
            P p{l + 1, nl};
            std::string nm = p.name();
            p.need('=');
            if (p.word("type")) M.typedefs[nm] = p.p - s;
        } else if (*l == '@') {
            P p{l + 1, nl};
            Global *g = new Global;
            g->name = p.name();
            p.need('=');
            bool alias = false;
            for (;;) {
                p.ws();
                std::string w = p.peekw();
                if (w == "global" || w == "constant") { g->constant = w == "constant"; p.p += w.size(); break; }
                if (w == "alias") { alias = true; break; }
                if (w == "external" || w == "extern_weak") g->external = true;
                if (w.empty()) { p.bad("global"); }
                p.p += w.size();
                if (p.is('(')) p.skipParen();
            }
            if (alias) unsupported("alias " + g->name);
            g->init = p.p - s;
            M.globals[g->name] = g;
        } else if (!strncmp(l, "define ", 7) || !strncmp(l, "declare ", 8)) {
            const char *q = l;
            while (*q != '@') q++;
            P p{q + 1, nl};
            Function *fn = new Function;
            fn->name = p.name();
            fn->id = M.fnlist.size();
            M.fnlist.push_back(fn);
            M.fns[fn->name] = fn;
            if (*l == 'd' && l[2] == 'f') {
                fn->from = l - s;
                const char *end = (const char *)memmem(nl, e - nl, "\n}\n", 3);
                fn->to = end - s + 1;
                nl = end + 2;
            }
        }
        l = nl + 1;
    }
}

inline int label(P &p, std::unordered_map<std::string, int> &bb) {
    if (!p.word("label")) p.bad("label");
    p.ws(); p.need('%');
    std::string n = p.name();
    auto it = bb.find(n);
    if (it == bb.end()) p.bad("unknown block");
    return it->second;
}

inline void parseFn(Function *fn) {
    fn->parsed = true;
    const char *s = M.src.data() + fn->from, *end = M.src.data() + fn->to;
    std::unordered_map<std::string, int> regs, bb;
    // header
    const char *nl = (const char *)memchr(s, '\n', end - s);
    P h{s, nl, &regs};
    const char *at = s;
    // return type: between 'define' and '@'
    while (*at != '@') at++;
    {
        P q{s + 6, at};
        attrs(q);
        // linkage and calling convention words are skipped as attributes
        if (q.p < at) fn->ret = type(q);
    }
    h.p = at + 1;
    h.name();
    h.need('(');
    int unnamed = 0;
    while (!h.eat(')')) {
        if (h.word("...")) continue;
        Type *t = type(h);
        attrs(h);
        std::string n;
        if (h.is('%')) { h.p++; n = h.name(); } else n = std::to_string(unnamed);
        unnamed++;
        int k = regs.size();
        regs[n] = k;
        fn->argty.push_back(t);
        h.eat(',');
    }
    fn->nargs = fn->argty.size();
    // collect logical lines
    std::vector<std::pair<const char *, const char *>> lines; // instruction text
    std::vector<std::vector<std::pair<const char *, const char *>>> blocks;
    const char *l = nl + 1;
    bool first = true;
    auto addBlock = [&](const std::string &n) { bb[n] = blocks.size(); blocks.emplace_back(); };
    while (l < end) {
        nl = (const char *)memchr(l, '\n', end - l);
        if (!nl) nl = end;
        const char *q = l;
        while (q < nl && (*q == ' ' || *q == '\t')) q++;
        if (q == nl || *q == ';') { l = nl + 1; continue; }
        if (*l != ' ' && *l != '}') { // label
            P p{l, nl};
            std::string n = p.name();
            addBlock(n);
            first = false;
            l = nl + 1;
            continue;
        }
        if (*l == '}') break;
        if (first) { addBlock(std::to_string(fn->nargs)); first = false; }
        if (q[0] == '#' && q[1] == 'd') { l = nl + 1; continue; }
        const char *ie = nl;
        if (!strncmp(q, "switch ", 7)) {
            ie = (const char *)memmem(q, end - q, "]", 1);
            // the bracket closing the case list is on a line of its own
            const char *k = (const char *)memmem(q, end - q, "\n  ]", 4);
            const char *one = (const char *)memchr(q, ']', nl - q);
            ie = one ? one + 1 : k + 4;
            nl = (const char *)memchr(ie, '\n', end - ie);
        } else if (memmem(q, nl - q, "invoke ", 7) && (!strncmp(q, "invoke ", 7) || *q == '%')) {
            if (!memmem(q, nl - q, "unwind label", 12)) {
                const char *n2 = (const char *)memchr(nl + 1, '\n', end - nl - 1);
                ie = n2; nl = n2;
            }
        } else if (memmem(q, nl - q, "= landingpad", 12)) {
            for (;;) {
                const char *n2 = nl + 1;
                while (*n2 == ' ') n2++;
                if (strncmp(n2, "cleanup", 7) && strncmp(n2, "catch", 5) && strncmp(n2, "filter", 6)) break;
                nl = (const char *)memchr(nl + 1, '\n', end - nl - 1);
            }
        }
        blocks.back().push_back({q, ie});
        l = nl + 1;
    }
    fn->b.resize(blocks.size());
    static const std::unordered_map<std::string, int> binops = {{"add", ADD}, {"sub", SUB}, {"mul", MUL}, {"udiv", UDIV}, {"sdiv", SDIV}, {"urem", UREM}, {"srem", SREM}, {"and", AND}, {"or", OR}, {"xor", XOR}, {"shl", SHL}, {"lshr", LSHR}, {"ashr", ASHR}};
    static const std::unordered_map<std::string, int> preds = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}};
    static const std::unordered_map<std::string, int> fpreds = {{"false", F_FALSE}, {"oeq", F_OEQ}, {"ogt", F_OGT}, {"oge", F_OGE}, {"olt", F_OLT}, {"ole", F_OLE}, {"one", F_ONE}, {"ord", F_ORD}, {"ueq", F_UEQ}, {"ugt", F_UGT}, {"uge", F_UGE}, {"ult", F_ULT}, {"ule", F_ULE}, {"une", F_UNE}, {"uno", F_UNO}, {"true", F_TRUE}};
    for (size_t bi = 0; bi < blocks.size(); bi++)
        for (auto &ln : blocks[bi]) {
            P p{ln.first, ln.second, &regs};
            Inst in;
            const char *start = p.p;
            try {
            if (*p.p == '%') {
                p.p++;
                std::string n = p.name();
                auto it = regs.find(n);
                if (it == regs.end()) { int k = regs.size(); regs[n] = k; in.dst = k; } else in.dst = it->second;
                p.need('=');
            }
            std::string w = p.getw();
            auto op2 = [&](Type *t) { in.o.push_back(value(p, t)); };
            auto bo = binops.find(w);
            if (bo != binops.end()) {
                in.op = I_BIN; in.sub = bo->second;
                while (p.word("nuw") || p.word("nsw") || p.word("exact") || p.word("disjoint")) {}
                in.ty = type(p);
                op2(in.ty); p.need(','); op2(in.ty);
            } else if (w == "icmp") {
                in.op = I_ICMP; p.word("samesign");
                in.sub = preds.at(p.getw());
                in.ty = type(p); op2(in.ty); p.need(','); op2(in.ty);
            } else if (w == "fcmp") {
                in.op = I_FCMP;
                while (p.word("fast") || p.word("nnan") || p.word("ninf") || p.word("nsz")) {}
                in.sub = fpreds.at(p.getw());
                in.ty = type(p); op2(in.ty); p.need(','); op2(in.ty);
            } else if (w == "zext" || w == "sext" || w == "trunc" || w == "bitcast" || w == "ptrtoint" || w == "inttoptr" || w == "ptrtoaddr") {
                while (p.word("nneg") || p.word("nuw") || p.word("nsw")) {}
                in.ty = type(p); op2(in.ty);
                if (!p.word("to")) p.bad("cast");
                in.ty2 = type(p);
                in.op = w == "zext" ? I_CAST_ZEXT : w == "sext" ? I_CAST_SEXT : w == "trunc" ? I_CAST_TRUNC : I_BITCAST;
            } else if (w == "select") {
                in.op = I_SELECT;
                in.ty2 = type(p); op2(in.ty2); p.need(',');
                in.ty = type(p); op2(in.ty); p.need(',');
                type(p); op2(in.ty);
            } else if (w == "alloca") {
                in.op = I_ALLOCA; p.word("inalloca"); in.ty = type(p);
                if (p.eat(',')) { P q = p; if (atType(q)) { Type *t = type(p); op2(t); in.ty2 = t; } }
            } else if (w == "load") {
                in.op = I_LOAD; while (p.word("atomic") || p.word("volatile")) {}
                in.ty = type(p); p.need(','); type(p); op2(ptrT());
            } else if (w == "store") {
                in.op = I_STORE; while (p.word("atomic") || p.word("volatile")) {}
                in.ty = type(p); op2(in.ty); p.need(','); type(p); op2(ptrT());
            } else if (w == "getelementptr") {
                in.op = I_GEP;
                while (p.word("inbounds") || p.word("nuw") || p.word("nusw")) {}
                if (p.word("inrange")) p.skipParen();
                Type *t = type(p); p.need(',');
                type(p); op2(ptrT());
                int k = 0;
                while (p.eat(',')) {
                    if (p.is('!')) break;
                    Type *it = type(p);
                    Operand o = value(p, it);
                    u64 sc;
                    if (k == 0) sc = t->size;
                    else if (t->k == Type::STRUCT) { in.base += t->off[o.v.c]; t = t->f[o.v.c]; k++; continue; }
                    else { t = t->el; sc = t->size; }
                    k++;
                    if (o.reg < 0 && !o.v.e) in.base += (u64)(i64)sx(o.v.c, it->bits) * sc;
                    else { in.o.push_back(o); in.scale.push_back(sc); in.gw.push_back(it->bits); }
                }
            } else if (w == "phi") {
                in.op = I_PHI;
                in.ty = type(p);
                do {
                    if (p.is('!')) break;
                    p.need('['); op2(in.ty); p.need(',');
                    p.ws(); p.need('%');
                    in.idx.push_back(bb.at(p.name()));
                    p.need(']');
                } while (p.eat(','));
            } else if (w == "br") {
                P q = p;
                if (q.word("label")) { in.op = I_BR; in.idx.push_back(label(p, bb)); }
                else {
                    in.op = I_CONDBR; in.ty = type(p); op2(in.ty); p.need(',');
                    in.idx.push_back(label(p, bb)); p.need(','); in.idx.push_back(label(p, bb));
                }
            } else if (w == "switch") {
                in.op = I_SWITCH; in.ty = type(p); op2(in.ty); p.need(',');
                in.idx.push_back(label(p, bb));
                p.need('[');
                while (!p.eat(']')) {
                    Type *t = type(p); Val v = constant(p, t); p.need(',');
                    in.cases.push_back(scalarBits(v));
                    in.idx.push_back(label(p, bb));
                }
            } else if (w == "ret") {
                in.op = I_RET; in.ty = type(p);
                if (in.ty->k != Type::VOID) op2(in.ty);
            } else if (w == "unreachable") in.op = I_UNREACHABLE;
            else if (w == "extractvalue") {
                in.op = I_EXTRACTVALUE; in.ty = type(p); op2(in.ty);
                while (p.eat(',')) { if (p.is('!')) break; in.idx.push_back(p.num()); }
            } else if (w == "insertvalue") {
                in.op = I_INSERTVALUE; in.ty = type(p); op2(in.ty); p.need(',');
                in.ty2 = type(p); op2(in.ty2);
                while (p.eat(',')) { if (p.is('!')) break; in.idx.push_back(p.num()); }
            } else if (w == "extractelement") {
                in.op = I_EXTRACTELEM; in.ty = type(p); op2(in.ty); p.need(',');
                Type *t = type(p); op2(t);
            } else if (w == "insertelement") {
                in.op = I_INSERTELEM; in.ty = type(p); op2(in.ty); p.need(',');
                Type *t = type(p); op2(t); p.need(','); t = type(p); op2(t);
            } else if (w == "shufflevector") {
                in.op = I_SHUFFLE; in.ty = type(p); op2(in.ty); p.need(',');
                type(p); op2(in.ty); p.need(',');
                in.ty2 = type(p);
                p.ws();
                if (p.word("zeroinitializer") || p.word("poison")) in.idx.assign(in.ty2->n, 0);
                else {
                    p.need('<');
                    while (!p.eat('>')) { Type *t = type(p); if (p.word("poison") || p.word("undef")) in.idx.push_back(0); else in.idx.push_back((int)constant(p, t).c); p.eat(','); }
                }
            } else if (w == "freeze") { in.op = I_FREEZE; in.ty = type(p); op2(in.ty); }
            else if (w == "fence") in.op = I_FENCE;
            else if (w == "landingpad" || w == "resume" || w == "cleanupret") in.op = I_LANDINGPAD;
            else if (w == "atomicrmw") {
                in.op = I_RMW; p.word("volatile");
                std::string k = p.getw();
                static const char *ks[] = {"xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin"};
                in.sub = 255;
                for (int i = 0; i < 11; i++) if (k == ks[i]) in.sub = i;
                type(p); op2(ptrT()); p.need(','); in.ty = type(p); op2(in.ty);
            } else if (w == "cmpxchg") {
                in.op = I_CMPXCHG; while (p.word("weak") || p.word("volatile")) {}
                type(p); op2(ptrT()); p.need(','); in.ty = type(p); op2(in.ty); p.need(','); type(p); op2(in.ty);
            } else if (w == "call" || w == "tail" || w == "musttail" || w == "notail" || w == "invoke") {
                bool inv = w == "invoke";
                if (w != "call" && !inv) p.getw();
                in.op = I_CALL;
                attrs(p); // calling convention and return attributes
                in.ty = type(p);
                if (p.is('(')) { p.skipParen(); }
                p.ws();
                if (p.word("asm")) { in.op = I_OTHER; in.name = std::string(start, std::min<size_t>(100, ln.second - start)); fn->b[bi].in.push_back(in); continue; }
                Operand callee;
                std::string cn;
                if (*p.p == '@') { p.p++; cn = p.name(); in.fn = fnByName(cn); in.name = cn; if (!in.fn) callee.v = kv(symAddr(cn)); }
                else callee = value(p, ptrT());
                in.o.push_back(callee);
                p.need('(');
                while (!p.eat(')')) {
                    Type *t = type(p);
                    if (t->k == Type::OTHER) { int d = 0; while (d || (*p.p != ',' && *p.p != ')')) { if (*p.p == '(') d++; if (*p.p == ')') d--; p.p++; } in.at.push_back(t); in.o.push_back(Operand()); p.eat(','); continue; }
                    attrs(p);
                    in.at.push_back(t);
                    op2(t);
                    p.eat(',');
                }
                if (inv) {
                    const char *k = (const char *)memmem(p.p, p.e - p.p, " label %", 8);
                    const char *t = (const char *)memmem(p.p, p.e - p.p, "to label", 8);
                    (void)k;
                    P q{t + 2, p.e};
                    in.idx.push_back(label(q, bb));
                }
            } else { in.op = I_OTHER; in.name = std::string(start, std::min<size_t>(100, ln.second - start)); }
            } catch (Unsupported &u) { Inst x; x.op = I_OTHER; x.name = u.what + " in " + std::string(start, std::min<size_t>(140, ln.second - start)); x.dst = in.dst; in = x; }
            fn->b[bi].in.push_back(in);
        }
    fn->nregs = regs.size();
}
