// Bit-vector terms: hash-consed, simplified on construction, evaluated under
// a model, translated to Z3 on demand.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>
typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : u8 { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct Expr {
    Op op;
    u32 w;
    Expr *a, *b, *c;
    u128 k;    // CONST: value, SYM: index, EXTRACT: low bit
    u128 hi;   // upper bound of the unsigned value
    u32 id;
    Z3_ast z;
    u64 stamp;
    u128 val;
};

struct Unsupported {
    std::string what;
};
[[noreturn]] inline void unsupported(const std::string &s) { throw Unsupported{s}; }

inline u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, u32 w) {
    if (w >= 128) return (i128)v;
    u128 s = (u128)1 << (w - 1);
    return (i128)((v & maskw(w)) ^ s) - (i128)s;
}

struct Key {
    Op op; u32 w; Expr *a, *b, *c; u128 k;
    bool operator==(const Key &o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && k == o.k; }
};
struct KeyH {
    size_t operator()(const Key &x) const {
        u64 h = x.op * 0x9E3779B97F4A7C15ull + x.w;
        auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
        mix((u64)x.a); mix((u64)x.b); mix((u64)x.c); mix((u64)x.k); mix((u64)(x.k >> 64));
        return h;
    }
};
inline std::unordered_map<Key, Expr *, KeyH> interned;
inline u32 nexprs = 0;

inline u128 umaxOf(Op op, u32 w, Expr *a, Expr *b, Expr *c, u128 k) {
    u128 m = maskw(w);
    switch (op) {
    case CONST: return k;
    case ADD: { u128 s = a->hi + b->hi; return (s < a->hi || s > m) ? m : s; }
    case MUL: if (w <= 64) { u128 s = a->hi * b->hi; return s > m ? m : s; } return m;
    case AND: return a->hi < b->hi ? a->hi : b->hi;
    case OR: case XOR: { u128 x = a->hi | b->hi; u128 r = 0; while (r < x) r = r << 1 | 1; return r; }
    case UDIV: return b->op == CONST && b->k ? a->hi / b->k : m;
    case UREM: return b->op == CONST && b->k ? (a->hi < b->k ? a->hi : b->k - 1) : m;
    case LSHR: return b->op == CONST ? (b->k >= w ? 0 : a->hi >> (u32)b->k) : a->hi;
    case SHL: if (b->op == CONST && b->k < w && w <= 64) { u128 s = a->hi << (u32)b->k; return s > m ? m : s; } return m;
    case ITE: return b->hi > c->hi ? b->hi : c->hi;
    case CONCAT: return w <= 128 ? (a->hi << b->w | maskw(b->w)) : m;
    case EXTRACT: { if (a->w > 128) return m; u128 s = a->hi >> (u32)k; return s > m ? m : s; }
    case ZEXT: return a->hi;
    case EQ: case ULT: case ULE: case SLT: case SLE: return 1;
    default: return m;
    }
}

inline Expr *mk(Op op, u32 w, Expr *a = 0, Expr *b = 0, Expr *c = 0, u128 k = 0) {
    Key key{op, w, a, b, c, k};
    auto it = interned.find(key);
    if (it != interned.end()) return it->second;
    Expr *e = new Expr;
    e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->k = k;
    e->id = nexprs++; e->z = 0; e->stamp = 0; e->val = 0;
    e->hi = w > 128 ? ~(u128)0 : umaxOf(op, w, a, b, c, k);
    interned.emplace(key, e);
    return e;
}
inline Expr *K(u128 v, u32 w) { if (w > 128) unsupported("constant wider than 128 bits"); return mk(CONST, w, 0, 0, 0, v & maskw(w)); }
inline bool isK(Expr *e) { return e->op == CONST; }
inline bool isK(Expr *e, u128 v) { return e->op == CONST && e->k == v; }

inline u128 fold(Op op, u32 w, u128 x, u128 y) {
    u128 m = maskw(w);
    switch (op) {
    case ADD: return (x + y) & m;
    case SUB: return (x - y) & m;
    case MUL: return (x * y) & m;
    case UDIV: return y ? x / y : m;
    case UREM: return y ? x % y : x;
    case SDIV: { i128 a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (u128)(-(u128)a) & m; return (u128)(a / b) & m; }
    case SREM: { i128 a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
    case AND: return x & y;
    case OR: return x | y;
    case XOR: return x ^ y;
    case SHL: return y >= w ? 0 : (x << (u32)y) & m;
    case LSHR: return y >= w ? 0 : x >> (u32)y;
    case ASHR: return (u128)(sx(x, w) >> (u32)(y >= w ? w - 1 : y)) & m;
    case EQ: return x == y;
    case ULT: return x < y;
    case ULE: return x <= y;
    case SLT: return sx(x, w) < sx(y, w);
    case SLE: return sx(x, w) <= sx(y, w);
    default: abort();
    }
}

Expr *bin(Op op, Expr *a, Expr *b);
Expr *extract(Expr *a, u32 lo, u32 w);
Expr *concat(Expr *hi, Expr *lo);
Expr *zext(Expr *a, u32 w);
Expr *sext(Expr *a, u32 w);
Expr *ite(Expr *c, Expr *a, Expr *b);
inline Expr *notE(Expr *a) { return bin(XOR, a, K(maskw(a->w), a->w)); }
inline Expr *eqE(Expr *a, Expr *b) { return bin(EQ, a, b); }

inline Expr *extract(Expr *a, u32 lo, u32 w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
    case CONST: return K(a->k >> lo, w);
    case EXTRACT: return extract(a->a, (u32)a->k + lo, w);
    case CONCAT:
        if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
        if (lo + w <= a->b->w) return extract(a->b, lo, w);
        return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
    case ZEXT:
        if (lo >= a->a->w) return K(0, w);
        if (lo + w <= a->a->w) return extract(a->a, lo, w);
        return zext(extract(a->a, lo, a->a->w - lo), w);
    case SEXT:
        if (lo + w <= a->a->w) return extract(a->a, lo, w);
        if (lo < a->a->w) return sext(extract(a->a, lo, a->a->w - lo), w);
        return sext(extract(a->a, a->a->w - 1, 1), w);
    case ITE:
        if (isK(a->b) || isK(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
        break;
    case AND: case OR: case XOR:
        if (isK(a->b)) return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
        break;
    case ADD: case SUB: case MUL: case SHL:
        if (lo == 0 && isK(a->b) && a->op != SHL) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w));
        if (a->op == SHL && isK(a->b)) {
            u32 s = (u32)a->b->k;
            if (lo >= s) return extract(a->a, lo - s, w);
            if (lo + w <= s) return K(0, w);
        }
        break;
    case SDIV: case SREM: case UDIV: case UREM: break;
    case LSHR:
        if (isK(a->b) && lo + w + (u32)a->b->k <= a->w) return extract(a->a, lo + (u32)a->b->k, w);
        break;
    default: break;
    }
    return mk(EXTRACT, w, a, 0, 0, lo);
}
inline Expr *concat(Expr *h, Expr *l) {
    u32 w = h->w + l->w;
    if (isK(h) && isK(l) && w <= 128) return K(h->k << l->w | l->k, w);
    if (isK(h, 0)) return zext(l, w);
    if (h->op == EXTRACT && l->op == EXTRACT && h->a == l->a && h->k == l->k + l->w) return extract(h->a, (u32)l->k, w);
    // the low part may have been simplified on its own
    if (h->op == EXTRACT && h->k >= l->w && h->a->w <= 64 && extract(h->a, (u32)h->k - l->w, l->w) == l)
        return extract(h->a, (u32)h->k - l->w, w);
    // (x_hi . (x_lo . y))
    if (l->op == CONCAT && h->op == EXTRACT && l->a->op == EXTRACT && h->a == l->a->a && h->k == l->a->k + l->a->w)
        return concat(extract(h->a, (u32)l->a->k, h->w + l->a->w), l->b);
    if (h->op == CONCAT) return concat(h->a, concat(h->b, l));
    return mk(CONCAT, w, h, l);
}
inline Expr *zext(Expr *a, u32 w) {
    if (w == a->w) return a;
    if (isK(a) && w <= 128) return K(a->k, w);
    if (a->op == ZEXT) return zext(a->a, w);
    return mk(ZEXT, w, a);
}
inline Expr *sext(Expr *a, u32 w) {
    if (w == a->w) return a;
    if (isK(a) && w <= 128) return K((u128)sx(a->k, a->w), w);
    if (a->op == ZEXT) return zext(a->a, w);
    if (a->op == SEXT) return sext(a->a, w);
    return mk(SEXT, w, a);
}
inline Expr *ite(Expr *c, Expr *a, Expr *b) {
    if (isK(c)) return c->k ? a : b;
    if (a == b) return a;
    if (a->w == 1 && isK(a) && isK(b)) return a->k ? c : notE(c);
    if (a->w == 1 && isK(b, 0)) return bin(AND, c, a);
    if (a->w == 1 && isK(a, 1)) return bin(OR, c, b);
    if (c->op == XOR && isK(c->b)) return ite(c->a, b, a);
    return mk(ITE, a->w, c, a, b);
}
// ---- linear forms -----------------------------------------------------------
// The exact signed value of a term as k + sum(coefficient * leaf) with the
// range it can take; leaves are 64 bit terms whose signed value is meant.
struct Lin {
    bool ok = false;
    i128 k = 0, lo = 0, hi = 0;
    std::vector<std::pair<Expr *, i128>> t; // by id
};
inline bool smul(i128 a, i128 b, i128 &r) { return !__builtin_mul_overflow(a, b, &r); }
inline bool sadd(i128 a, i128 b, i128 &r) { return !__builtin_add_overflow(a, b, &r); }
inline bool linSum(const Lin &a, const Lin &b, i128 f, Lin &r) {
    // a + f * b
    i128 x, y;
    r.t.clear();
    if (!smul(b.k, f, x) || !sadd(a.k, x, r.k)) return false;
    if (!smul(f > 0 ? b.lo : b.hi, f, x) || !sadd(a.lo, x, r.lo)) return false;
    if (!smul(f > 0 ? b.hi : b.lo, f, x) || !sadd(a.hi, x, r.hi)) return false;
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first->id < b.t[j].first->id)) r.t.push_back(a.t[i++]);
        else {
            if (!smul(b.t[j].second, f, y)) return false;
            if (i < a.t.size() && a.t[i].first == b.t[j].first) {
                if (!sadd(y, a.t[i].second, y)) return false;
                i++;
            }
            if (y) r.t.push_back({b.t[j].first, y});
            j++;
        }
    }
    return r.t.size() <= 12;
}
inline const Lin &linOf(Expr *e);
// Range of a combination from the ranges of its leaves.
inline bool linRange(Lin &r) {
    i128 lo = r.k, hi = r.k, x, y;
    for (auto &p : r.t) {
        const Lin &l = linOf(p.first);
        if (!smul(l.lo, p.second, x) || !smul(l.hi, p.second, y)) return false;
        if (p.second < 0) std::swap(x, y);
        if (!sadd(lo, x, lo) || !sadd(hi, y, hi)) return false;
    }
    if (r.t.empty() || lo > r.lo) r.lo = lo;
    if (r.t.empty() || hi < r.hi) r.hi = hi;
    return true;
}
inline bool linFits(const Lin &r, u32 w) {
    i128 m = w >= 127 ? ((i128)1 << 126) : ((i128)1 << (w - 1));
    return r.lo >= -m && r.hi < m;
}
inline std::unordered_map<Expr *, Lin *> linMemo;
inline const Lin &linOf(Expr *e) {
    static const Lin none;
    if (e->w > 128) return none;
    auto it = linMemo.find(e);
    if (it != linMemo.end()) return *it->second;
    Lin *r = new Lin;
    linMemo[e] = r;
    u32 w = e->w;
    auto full = [&]() -> bool {
        i128 m = (i128)1 << ((w < 127 ? w : 127) - 1);
        r->lo = -m;
        r->hi = m - 1 + (w >= 127 ? m : 0);
        return w < 127;
    };
    bool lin = false;
    switch (e->op) {
    case CONST: r->ok = true; r->k = r->lo = r->hi = sx(e->k, w); return *r;
    case ADD: case SUB: {
        const Lin &a = linOf(e->a), &b = linOf(e->b);
        lin = a.ok && b.ok && linSum(a, b, e->op == ADD ? 1 : -1, *r);
        break;
    }
    case MUL:
        if (isK(e->b)) {
            const Lin &a = linOf(e->a);
            Lin zero;
            lin = a.ok && linSum(zero, a, sx(e->b->k, w), *r);
        }
        break;
    case CONCAT:
        if (isK(e->b, 0) && e->b->w < 64) {
            const Lin &a = linOf(e->a);
            Lin zero;
            lin = a.ok && linSum(zero, a, (i128)1 << e->b->w, *r);
        }
        break;
    case SEXT: { const Lin &a = linOf(e->a); lin = a.ok; if (lin) *r = a; break; }
    case ZEXT: {
        const Lin &a = linOf(e->a);
        lin = a.ok && a.lo >= 0;
        if (lin) *r = a;
        else if (w != 64 && e->a->w < 64) { // the leaf is the 64 bit term
            const Lin &b = linOf(zext(e->a, 64));
            lin = b.ok && linFits(b, w);
            if (lin) *r = b;
        }
        break;
    }
    case EXTRACT:
        if (e->k == 0) { const Lin &a = linOf(e->a); lin = a.ok && linFits(a, w); if (lin) *r = a; }
        break;
    default: break;
    }
    if (lin && linRange(*r) && linFits(*r, w)) { r->ok = true; return *r; }
    // a leaf
    *r = Lin();
    if (w > 64) return *r;
    full();
    bool uns = e->hi < (u128)1 << (w - 1) || (e->op == ZEXT);
    auto clamp = [&](i128 lo, i128 hi) { if (lo > r->lo) r->lo = lo; if (hi < r->hi) r->hi = hi; };
    if (uns) clamp(0, (i128)e->hi);
    switch (e->op) {
    case ITE: {
        const Lin &b = linOf(e->b), &c = linOf(e->c);
        if (b.ok && c.ok) clamp(b.lo < c.lo ? b.lo : c.lo, b.hi > c.hi ? b.hi : c.hi);
        break;
    }
    case SREM: case SDIV:
        if (isK(e->b) && sx(e->b->k, w) > 0) {
            const Lin &a = linOf(e->a);
            i128 d = sx(e->b->k, w);
            if (a.ok && e->op == SDIV) clamp(a.lo / d, a.hi / d);
            if (e->op == SREM) clamp(a.ok && a.lo >= 0 ? 0 : 1 - d, a.ok && a.hi <= 0 ? 0 : d - 1);
        }
        break;
    default: break;
    }
    // ranges of leaves belong to the 64 bit term
    Expr *l = e;
    if (w < 64) l = r->lo >= 0 && uns ? zext(e, 64) : sext(e, 64);
    if (l != e) {
        auto j = linMemo.find(l);
        if (j == linMemo.end()) {
            Lin *s = new Lin;
            s->ok = true; s->lo = r->lo; s->hi = r->hi; s->t = {{l, 1}};
            linMemo[l] = s;
        }
    }
    r->ok = true;
    r->t = {{l, 1}};
    return *r;
}
inline Expr *bin(Op op, Expr *a, Expr *b);
inline Expr *linExpr(const Lin &l, u32 w) {
    Expr *r = K((u128)l.k, w);
    for (auto &p : l.t) {
        Expr *x = p.first->w < w ? sext(p.first, w) : extract(p.first, 0, w);
        r = bin(ADD, bin(MUL, x, K((u128)p.second, w)), r);
    }
    return r;
}
// floor(l / d) and l mod d when the parts with coefficients that are multiples
// of d separate from a rest between 0 and d - 1.
inline bool linDiv(const Lin &l, i128 d, Lin &q, Lin &m) {
    q = Lin(); m = Lin();
    q.ok = m.ok = true;
    i128 rk = ((l.k % d) + d) % d;
    q.k = (l.k - rk) / d;
    m.k = rk;
    i128 x, y;
    m.lo = m.hi = rk;
    for (auto &p : l.t) {
        if (p.second % d == 0) { q.t.push_back({p.first, p.second / d}); continue; }
        // coefficient = a * d + b with 0 <= b < d
        i128 b = ((p.second % d) + d) % d, a = (p.second - b) / d;
        if (a) q.t.push_back({p.first, a});
        m.t.push_back({p.first, b});
        const Lin &f = linOf(p.first);
        if (!smul(f.lo, b, x) || !smul(f.hi, b, y) || !sadd(m.lo, x, m.lo) || !sadd(m.hi, y, m.hi)) return false;
    }
    // shift the rest into 0..d
    i128 s = m.lo / d - (m.lo % d < 0 ? 1 : 0);
    m.k -= s * d; m.lo -= s * d; m.hi -= s * d;
    q.k += s;
    if (m.hi >= d) return false;
    i128 big = (i128)1 << 126;
    q.lo = -big; q.hi = big;
    return linRange(q);
}
inline bool linWorth(Expr *e) {
    while (e->op == ZEXT || e->op == SEXT || (e->op == EXTRACT && e->k == 0)) e = e->a;
    return e->op == ADD || e->op == SUB || e->op == MUL || (e->op >= UDIV && e->op <= SREM);
}
inline bool commut(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }
inline Expr *bin(Op op, Expr *a, Expr *b) {
    u32 w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %u %u\n", op, a->w, b->w); abort(); }
    bool rel = op >= EQ && op <= SLE;
    if (isK(a) && isK(b)) return K(fold(op, w, a->k, b->k), rel ? 1 : w);
    if (commut(op) && (isK(a) || (!isK(b) && a->id > b->id))) std::swap(a, b);
    u128 m = maskw(w);
    if (rel && w >= 8 && a != b && (linWorth(a) || linWorth(b))) {
        const Lin &x = linOf(a), &y = linOf(b);
        Lin d;
        if (x.ok && y.ok && (op == EQ || op == SLT || op == SLE || (x.lo >= 0 && y.lo >= 0)) && linSum(x, y, -1, d) && linRange(d)) {
            switch (op) {
            case EQ: if (d.lo == 0 && d.hi == 0) return K(1, 1); if (d.lo > 0 || d.hi < 0) return K(0, 1); break;
            case ULT: case SLT: if (d.hi < 0) return K(1, 1); if (d.lo >= 0) return K(0, 1); break;
            default: if (d.hi <= 0) return K(1, 1); if (d.lo > 0) return K(0, 1);
            }
        }
    }
    switch (op) {
    case ADD:
        if (isK(b, 0)) return a;
        if (isK(b) && a->op == ADD && isK(a->b)) return bin(ADD, a->a, K(a->b->k + b->k, w));
        break;
    case SUB:
        if (isK(b)) return bin(ADD, a, K(-b->k, w));
        if (a == b) return K(0, w);
        if (a->op == ADD && a->a == b) return a->b;
        if (a->op == ADD && a->b == b) return a->a;
        break;
    case MUL:
        if (isK(b, 0)) return b;
        if (isK(b, 1)) return a;
        if (isK(b) && b->k && !(b->k & (b->k - 1))) { u32 s = 0; while (!(b->k >> s & 1)) s++; return bin(SHL, a, K(s, w)); }
        break;
    case UDIV: case UREM:
        if (isK(b) && b->k && !(b->k & (b->k - 1))) {
            u32 s = 0; while (!(b->k >> s & 1)) s++;
            return op == UDIV ? bin(LSHR, a, K(s, w)) : bin(AND, a, K(b->k - 1, w));
        }
        if (isK(b) && b->k && a->hi < b->k) return op == UDIV ? K(0, w) : a;
        if (isK(b) && w <= 64 && sx(b->k, w) > 0 && linOf(a).ok && linOf(a).lo >= 0) {
            const Lin &l = linOf(a);
            Lin q, r;
            if (linDiv(l, sx(b->k, w), q, r)) return linExpr(op == UDIV ? q : r, w);
            u32 n = 1;
            while (n < w && (l.hi >> n || b->k >> n)) n++;
            if (n < w) return zext(mk(op, n, extract(a, 0, n), extract(b, 0, n)), w);
        }
        break;
    case SDIV: case SREM:
        if (isK(b) && w <= 64 && sx(b->k, w) > 0 && linOf(a).ok) {
            const Lin &l = linOf(a);
            if (l.lo >= 0) return bin(op == SDIV ? UDIV : UREM, a, b);
            Lin q, r;
            i128 d = sx(b->k, w);
            if (linDiv(l, d, q, r)) {
                // truncation rounds negative values up
                Expr *qe = linExpr(q, w), *re = linExpr(r, w);
                Expr *up = bin(AND, notE(bin(EQ, re, K(0, w))), bin(SLT, a, K(0, w)));
                if (op == SDIV) return bin(ADD, qe, zext(up, w));
                return ite(up, bin(SUB, re, b), re);
            }
            u32 n = 2;
            while (n < w && !(linFits(l, n) && d >> (n - 1) == 0)) n++;
            if (n < w) return sext(mk(op, n, extract(a, 0, n), extract(b, 0, n)), w);
        }
        break;
    case AND:
        if (isK(b, 0)) return b;
        if (isK(b, m)) return a;
        if (a == b) return a;
        if (isK(b)) {
            if (a->hi && !(b->k & (b->k + 1)) && a->hi <= b->k) return a;   // low mask above the value
            if (!(b->k & (b->k + 1))) { u32 n = 0; while (b->k >> n & 1) n++; return zext(extract(a, 0, n), w); }
            if (a->op == AND && isK(a->b)) return bin(AND, a->a, K(a->b->k & b->k, w));
            if (a->op == ZEXT) return zext(bin(AND, a->a, K(b->k, a->a->w)), w);
        }
        if (w == 1) { if (a == notE(b)) return K(0, 1); }
        break;
    case OR:
        if (isK(b, 0)) return a;
        if (isK(b, m)) return b;
        if (a == b) return a;
        {   // disjoint shifts assembled from bytes
            Expr *x = a, *y = b;
            for (int i = 0; i < 2; i++, std::swap(x, y)) {
                if (x->op == SHL && isK(x->b) && w <= 128) {
                    u32 s = (u32)x->b->k;
                    if (s < w && s && y->hi < ((u128)1 << s)) return concat(extract(x->a, 0, w - s), extract(y, 0, s));
                }
                if (x->op == CONCAT && isK(x->b, 0) && y->hi <= maskw(x->b->w)) return concat(x->a, extract(y, 0, x->b->w));
                if (x->op == ZEXT && x->a->op == CONCAT && isK(x->a->b, 0) && y->hi <= maskw(x->a->b->w))
                    return zext(concat(x->a->a, extract(y, 0, x->a->b->w)), w);
            }
        }
        break;
    case XOR:
        if (isK(b, 0)) return a;
        if (a == b) return K(0, w);
        if (isK(b) && a->op == XOR && isK(a->b)) return bin(XOR, a->a, K(a->b->k ^ b->k, w));
        if (w == 1 && isK(b, 1)) {
            if (a->op == ULT) return bin(ULE, a->b, a->a);
            if (a->op == ULE) return bin(ULT, a->b, a->a);
            if (a->op == SLT) return bin(SLE, a->b, a->a);
            if (a->op == SLE) return bin(SLT, a->b, a->a);
        }
        break;
    case SHL:
        if (isK(b, 0)) return a;
        if (isK(b)) {
            if (b->k >= w) return K(0, w);
            return concat(extract(a, 0, w - (u32)b->k), K(0, (u32)b->k));
        }
        break;
    case LSHR:
        if (isK(b, 0)) return a;
        if (isK(b)) {
            if (b->k >= w) return K(0, w);
            return zext(extract(a, (u32)b->k, w - (u32)b->k), w);
        }
        break;
    case ASHR:
        if (isK(b, 0)) return a;
        if (isK(b)) {
            u32 s = b->k >= w ? w - 1 : (u32)b->k;
            if (w <= 64 && linWorth(a) && linOf(a).ok) {
                Lin q, r;
                if (linDiv(linOf(a), (i128)1 << s, q, r)) return linExpr(q, w);
            }
            return sext(extract(a, s, w - s), w);
        }
        break;
    case EQ:
        if (a == b) return K(1, 1);
        if (w == 1 && isK(b)) return b->k ? a : notE(a);
        if (isK(b)) {
            if (b->k > a->hi) return K(0, 1);
            if (a->op == ZEXT) return bin(EQ, a->a, K(b->k, a->a->w));
            if (a->op == SEXT) {
                u128 t = b->k & maskw(a->a->w);
                if (((u128)sx(t, a->a->w) & m) != b->k) return K(0, 1);
                return bin(EQ, a->a, K(t, a->a->w));
            }
            if (a->op == ADD && isK(a->b)) return bin(EQ, a->a, K(b->k - a->b->k, w));
            if (a->op == XOR && isK(a->b)) return bin(EQ, a->a, K(b->k ^ a->b->k, w));
            if (a->op == CONCAT && (isK(a->a) || isK(a->b)))
                return bin(AND, bin(EQ, a->a, K(b->k >> a->b->w, a->a->w)), bin(EQ, a->b, K(b->k, a->b->w)));
            if (a->op == ITE && isK(a->b) && isK(a->c)) {
                bool x = a->b->k == b->k, y = a->c->k == b->k;
                if (x && y) return K(1, 1);
                if (!x && !y) return K(0, 1);
                return x ? a->a : notE(a->a);
            }
            if (a->op == ITE && (isK(a->b) || isK(a->c))) return ite(a->a, bin(EQ, a->b, b), bin(EQ, a->c, b));
        }
        if (a->op == ZEXT && b->op == ZEXT) {
            u32 n = a->a->w > b->a->w ? a->a->w : b->a->w;
            if (n < w) return bin(EQ, zext(a->a, n), zext(b->a, n));
        }
        if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w)
            return bin(AND, bin(EQ, a->a, b->a), bin(EQ, a->b, b->b));
        break;
    case ULT:
        if (a == b) return K(0, 1);
        if (isK(b, 0)) return K(0, 1);
        if (isK(b) && a->hi < b->k) return K(1, 1);
        if (isK(a) && a->k >= b->hi) return K(0, 1);
        if (isK(b, 1)) return bin(EQ, a, K(0, w));
        if (isK(b) && a->op == ZEXT) return bin(ULT, a->a, K(b->k, a->a->w));
        if (isK(a) && b->op == ZEXT) return bin(ULT, K(a->k, b->a->w), b->a);
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
        if (w == 1) return bin(AND, notE(a), b);
        break;
    case ULE:
        if (a == b) return K(1, 1);
        if (isK(a, 0)) return K(1, 1);
        if (isK(b) && a->hi <= b->k) return K(1, 1);
        if (isK(a) && a->k > b->hi) return K(0, 1);
        if (isK(b, 0)) return bin(EQ, a, b);
        if (isK(b) && a->op == ZEXT) return bin(ULE, a->a, K(b->k, a->a->w));
        if (isK(a) && b->op == ZEXT) return bin(ULE, K(a->k, b->a->w), b->a);
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULE, a->a, b->a);
        if (w == 1) return bin(OR, notE(a), b);
        break;
    case SLT: case SLE: {
        if (a == b) return K(op == SLE, 1);
        u128 s = (u128)1 << (w - 1);
        if (w <= 128 && a->hi < s && b->hi < s) return bin(op == SLT ? ULT : ULE, a, b);
        // sign test
        if (op == SLT && isK(b, 0)) return extract(a, w - 1, 1);
        if (op == SLT && isK(a, m)) return notE(extract(b, w - 1, 1));
        if (op == SLE && isK(a, 0)) return notE(extract(b, w - 1, 1));
        break;
    }
    default: break;
    }
    return mk(op, rel ? 1 : w, a, b);
}

// ---- evaluation ---------------------------------------------------------
typedef std::vector<u64> Model; // symbol index -> value
inline u64 evalStamp = 1;
inline u128 evalE(Expr *e, const Model &m) {
    if (e->op == CONST) return e->k;
    if (e->stamp == evalStamp) return e->val;
    if (e->w > 128) unsupported("evaluation wider than 128 bits");
    u128 r;
    switch (e->op) {
    case SYM: r = (size_t)e->k < m.size() ? m[(size_t)e->k] : 0; r &= maskw(e->w); break;
    case ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
    case CONCAT: r = evalE(e->a, m) << e->b->w | evalE(e->b, m); break;
    case EXTRACT: {
        Expr *a = e->a;
        r = (evalE(a, m) >> (u32)e->k) & maskw(e->w);
        break;
    }
    case ZEXT: r = evalE(e->a, m); break;
    case SEXT: r = (u128)sx(evalE(e->a, m), e->a->w) & maskw(e->w); break;
    default: r = fold(e->op, e->a->w, evalE(e->a, m), evalE(e->b, m));
    }
    e->stamp = evalStamp;
    e->val = r;
    return r;
}

// ---- Z3 -----------------------------------------------------------------
inline Z3_context zc;
inline std::vector<u32> symWidth;
inline Expr *symE(u32 idx, u32 w) { return mk(SYM, w, 0, 0, 0, idx); }
inline Z3_ast b1(Z3_ast c) {
    Z3_sort s = Z3_mk_bv_sort(zc, 1);
    return Z3_mk_ite(zc, c, Z3_mk_unsigned_int64(zc, 1, s), Z3_mk_unsigned_int64(zc, 0, s));
}
inline std::unordered_map<Expr *, Z3_ast> zbool;
Z3_ast toZ(Expr *e);
// A term over a single octet with few steps is written as these steps
// (length of a bit scan, rounded capacities): the same function, less circuit.
inline i64 soleSym(Expr *e) { // -1: constant, -2: several
    static std::unordered_map<Expr *, i64> memo;
    if (e->op == CONST) return -1;
    if (e->op == SYM) return (i64)e->k;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    i64 r = -1;
    for (Expr *x : {e->a, e->b, e->c})
        if (x && r != -2) {
            i64 y = soleSym(x);
            if (y != -1) r = r == -1 || r == y ? y : -2;
        }
    return memo[e] = r;
}
inline bool steps(Expr *e, std::vector<std::pair<u32, u64>> &out) {
    auto leaf = [](Expr *x) { return !x || x->op == CONST || x->op == SYM; };
    if (e->w > 64 || (leaf(e->a) && leaf(e->b) && leaf(e->c))) return false;
    i64 s = soleSym(e);
    if (s < 0 || symWidth[s] > 8) return false;
    Model m((size_t)s + 1, 0);
    for (u32 v = 0; v < 1u << symWidth[s]; v++) {
        m[s] = v;
        evalStamp++;
        u64 r = (u64)evalE(e, m);
        if (out.empty() || out.back().second != r) out.push_back({v, r});
        if (out.size() > 12) return false;
    }
    return true;
}
// Boolean form of a one bit term
inline Z3_ast toB(Expr *e) {
    auto it = zbool.find(e);
    if (it != zbool.end()) return it->second;
    Z3_ast r;
    std::vector<std::pair<u32, u64>> st;
    if (steps(e, st)) {
        Expr *x = symE((u32)soleSym(e), symWidth[soleSym(e)]);
        r = st[0].second ? Z3_mk_true(zc) : Z3_mk_false(zc);
        for (size_t i = 1; i < st.size(); i++)
            r = Z3_mk_ite(zc, Z3_mk_bvuge(zc, toZ(x), toZ(K(st[i].first, x->w))), st[i].second ? Z3_mk_true(zc) : Z3_mk_false(zc), r);
    } else switch (e->op) {
    case CONST: r = e->k ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
    case EQ: r = e->a->w == 1 ? Z3_mk_iff(zc, toB(e->a), toB(e->b)) : Z3_mk_eq(zc, toZ(e->a), toZ(e->b)); break;
    case ULT: r = Z3_mk_bvult(zc, toZ(e->a), toZ(e->b)); break;
    case ULE: r = Z3_mk_bvule(zc, toZ(e->a), toZ(e->b)); break;
    case SLT: r = Z3_mk_bvslt(zc, toZ(e->a), toZ(e->b)); break;
    case SLE: r = Z3_mk_bvsle(zc, toZ(e->a), toZ(e->b)); break;
    case AND: { Z3_ast x[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_and(zc, 2, x); break; }
    case OR: { Z3_ast x[2] = {toB(e->a), toB(e->b)}; r = Z3_mk_or(zc, 2, x); break; }
    case XOR: r = isK(e->b, 1) ? Z3_mk_not(zc, toB(e->a)) : Z3_mk_xor(zc, toB(e->a), toB(e->b)); break;
    case ITE: r = Z3_mk_ite(zc, toB(e->a), toB(e->b), toB(e->c)); break;
    default: r = Z3_mk_eq(zc, toZ(e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)));
    }
    Z3_inc_ref(zc, r);
    zbool[e] = r;
    return r;
}
inline Z3_ast toZ(Expr *e) {
    if (e->z) return e->z;
    Z3_ast r;
    std::vector<std::pair<u32, u64>> st;
    if (e->w > 1 && steps(e, st)) {
        Expr *x = symE((u32)soleSym(e), symWidth[soleSym(e)]);
        r = toZ(K(st[0].second, e->w));
        for (size_t i = 1; i < st.size(); i++)
            r = Z3_mk_ite(zc, Z3_mk_bvuge(zc, toZ(x), toZ(K(st[i].first, x->w))), toZ(K(st[i].second, e->w)), r);
    } else switch (e->op) {
    case CONST: {
        Z3_sort s = Z3_mk_bv_sort(zc, e->w <= 64 ? e->w : 64);
        r = Z3_mk_unsigned_int64(zc, (u64)e->k, s);
        if (e->w > 64) r = Z3_mk_concat(zc, Z3_mk_unsigned_int64(zc, (u64)(e->k >> 64), Z3_mk_bv_sort(zc, e->w - 64)), r);
        break;
    }
    case SYM: {
        char n[32];
        snprintf(n, sizeof n, "d%u_%u", (u32)e->k, e->w);
        r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), Z3_mk_bv_sort(zc, e->w));
        break;
    }
    case ADD: r = Z3_mk_bvadd(zc, toZ(e->a), toZ(e->b)); break;
    case SUB: r = Z3_mk_bvsub(zc, toZ(e->a), toZ(e->b)); break;
    case MUL: r = Z3_mk_bvmul(zc, toZ(e->a), toZ(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(zc, toZ(e->a), toZ(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(zc, toZ(e->a), toZ(e->b)); break;
    case UREM: r = Z3_mk_bvurem(zc, toZ(e->a), toZ(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(zc, toZ(e->a), toZ(e->b)); break;
    case SHL: r = Z3_mk_bvshl(zc, toZ(e->a), toZ(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(zc, toZ(e->a), toZ(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(zc, toZ(e->a), toZ(e->b)); break;
    case AND: r = e->w == 1 ? b1(toB(e)) : Z3_mk_bvand(zc, toZ(e->a), toZ(e->b)); break;
    case OR: r = e->w == 1 ? b1(toB(e)) : Z3_mk_bvor(zc, toZ(e->a), toZ(e->b)); break;
    case XOR: r = e->w == 1 ? b1(toB(e)) : Z3_mk_bvxor(zc, toZ(e->a), toZ(e->b)); break;
    case ITE: r = Z3_mk_ite(zc, toB(e->a), toZ(e->b), toZ(e->c)); break;
    case CONCAT: r = Z3_mk_concat(zc, toZ(e->a), toZ(e->b)); break;
    case EXTRACT: r = Z3_mk_extract(zc, (u32)e->k + e->w - 1, (u32)e->k, toZ(e->a)); break;
    case ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, toZ(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, toZ(e->a)); break;
    default: r = b1(toB(e));
    }
    Z3_inc_ref(zc, r);
    e->z = r;
    return r;
}
