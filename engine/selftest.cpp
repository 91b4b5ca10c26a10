// Random terms: the simplified term and the plain semantics must agree.
#include "expr.h"
#include <random>
static std::mt19937_64 rng(1);
static u64 rnd(u64 n) { return rng() % n; }
static Model model;
struct T { Expr *e; u128 v; };
static T gen(int d) {
    if (d == 0 || rnd(8) == 0) {
        static const u32 ws[] = {8, 16, 21, 32, 64};
        u32 w = ws[rnd(5)];
        if (rnd(3) == 0) { u64 v = rnd(2) ? rng() : rnd(2000); return {K(v, w), v & maskw(w)}; }
        u32 i = (u32)rnd(6);
        u32 sw[] = {8, 16, 32, 64, 7, 21};
        return {symE(i, sw[i]), model[i] & maskw(sw[i])};
    }
    T a = gen(d - 1);
    u32 w = a.e->w;
    auto fit = [&](T t, u32 n) -> T {
        if (t.e->w == n) return t;
        if (t.e->w > n) { if (rnd(4) == 0) { u32 lo = (u32)rnd(t.e->w - n + 1); return {extract(t.e, lo, n), (t.v >> lo) & maskw(n)}; } return {extract(t.e, 0, n), t.v & maskw(n)}; }
        if (rnd(2)) return {zext(t.e, n), t.v};
        return {sext(t.e, n), (u128)sx(t.v, t.e->w) & maskw(n)};
    };
    switch (rnd(6)) {
    case 0: { static const u32 ws[] = {8, 16, 19, 32, 64, 72}; return fit(a, ws[rnd(6)]); }
    case 1: { T b = gen(d - 1); if (a.e->w + b.e->w > 100) return a; return {concat(a.e, b.e), a.v << b.e->w | b.v}; }
    case 2: { T b = fit(gen(d - 1), w), c = fit(gen(d - 1), 1); return {ite(c.e, a.e, b.e), c.v ? a.v : b.v}; }
    default: {
        Op op = (Op)(ADD + rnd(SLE - ADD + 1));
        T b;
        static const u64 ks[] = {1, 2, 3, 4, 10, 60, 100, 400, 1000, 255, 365, 86400, 146097, 1u << 13};
        if (op >= SHL && op <= ASHR) { u64 k = rnd(w); b = {K(k, w), k}; }
        else if (rnd(2)) { u64 k = ks[rnd(14)]; b = {K(k, w), k & maskw(w)}; }
        else b = fit(gen(d - 1), w);
        if (rnd(6) == 0 && !(op >= SHL && op <= ASHR)) std::swap(a, b);
        return {bin(op, a.e, b.e), fold(op, w, a.v, b.v)};
    }
    }
}
int main(int argc, char **argv) {
    u64 n = argc > 1 ? strtoull(argv[1], 0, 10) : 200000;
    rng.seed(argc > 2 ? strtoull(argv[2], 0, 10) : 1);
    symWidth = {8, 16, 32, 64, 7, 21};
    model.resize(6);
    u64 folded = 0;
    for (u64 i = 0; i < n; i++) {
        for (auto &m : model) m = rnd(3) ? rng() : rnd(2) ? rnd(300) : ~0ull - rnd(300);
        for (u32 j = 0; j < 6; j++) model[j] &= maskw(symWidth[j]);
        T t = gen(2 + (int)rnd(5));
        evalStamp++;
        u128 v = evalE(t.e, model);
        if (isK(t.e)) folded++;
        if (v != t.v || t.e->hi < v) {
            printf("MISMATCH after %llu terms\n", (unsigned long long)i);
            return 1;
        }
        const Lin &l = linOf(t.e);
        if (l.ok) {
            i128 x = sx(t.v, t.e->w), s = l.k;
            for (auto &p : l.t) s += p.second * sx(evalE(p.first, model), 64);
            if (x != s || x < l.lo || x > l.hi) {
                printf("LINEAR MISMATCH after %llu terms\n", (unsigned long long)i);
                return 1;
            }
        }
    }
    printf("%llu terms agree, %llu folded to constants\n", (unsigned long long)n, (unsigned long long)folded);
}
