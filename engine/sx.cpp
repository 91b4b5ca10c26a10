// Path-exhaustive symbolic execution of LLVM IR produced by rustc.
//
//   sx MODULE.ll ENTRY [--time S] [--steps N] [--shard I --shards N] [--max-fail N] [--grace S]
//
// Every branch on a symbolic condition is decided by Z3 for both outcomes;
// feasible outcomes are all explored.  Output: one JSON object on stdout.
#include "ir.h"
#include <algorithm>
#include <chrono>
#include <map>
#include <set>
#include <sys/resource.h>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t0, timeLimit = 600, grace = 1e9, solverTime = 0;
static u64 stepLimit = 8000000, totalSteps = 0, queries = 0, satQ = 0, paths = 0, dead = 0, forks = 0;
static u64 shard = 0, shards = 1;
static int maxFail = 3;
static bool verbose = false;

// ---- memory ---------------------------------------------------------------
struct Obj {
    u32 rc = 0;
    u64 size = 0;
    bool ro = false, freed = false;
    std::vector<u8> d;
    std::vector<Expr *> s; // empty, or one entry per byte (null: concrete)
};
struct ObjRef {
    Obj *p = 0;
    ObjRef() {}
    ObjRef(Obj *o) : p(o) { if (p) p->rc++; }
    ObjRef(const ObjRef &o) : p(o.p) { if (p) p->rc++; }
    ObjRef(ObjRef &&o) noexcept : p(o.p) { o.p = 0; }
    ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->rc == 0) delete p; }
};
struct Frame {
    u32 rc = 0;
    Function *fn;
    int bb = 0, ip = 0, prev = -1;
    std::vector<Val> r;
    std::vector<u32> allocas;
};
struct FrameRef {
    Frame *p = 0;
    FrameRef() {}
    FrameRef(Frame *o) : p(o) { if (p) p->rc++; }
    FrameRef(const FrameRef &o) : p(o.p) { if (p) p->rc++; }
    FrameRef(FrameRef &&o) noexcept : p(o.p) { o.p = 0; }
    FrameRef &operator=(FrameRef o) { std::swap(p, o.p); return *this; }
    ~FrameRef() { if (p && --p->rc == 0) delete p; }
};
struct PC { PC *up; Expr *c; u32 depth; bool implied; };
struct State {
    std::vector<FrameRef> st;
    std::vector<ObjRef> heap;
    std::vector<u32> freeSlots;
    std::map<u32, ObjRef> gl;
    PC *pc = 0;
    std::shared_ptr<Model> model;
    std::vector<std::pair<Expr *, u32>> draws; // value, width
    u64 steps = 0, heapUse = 0, heapLimit = ~0ull; // octets on the heap, and how many there may be
    u64 shardLeft = 1, shardRest = 0; // shards to be told apart by the next picks, and which one this is
};
static std::vector<State *> work;
static State *S;
static std::vector<ObjRef> gobj;

struct PathEnd {};                               // path abandoned (assumption, failure)
struct Fail { std::string msg; };

// ---- solver ---------------------------------------------------------------
static Z3_solver solver;
static std::vector<PC *> active;                 // constraints on the current path, oldest first
static std::unordered_map<Expr *, int> known;    // condition -> multiplicity on the active path

static void know(Expr *c) { known[c]++; }
static void unknow(Expr *c) { auto it = known.find(c); if (--it->second == 0) known.erase(it); }
static void popTo(size_t n) {
    while (active.size() > n) {
        unknow(active.back()->c);
        active.pop_back();
    }
}
static void activate(State *s) {
    std::vector<PC *> path;
    PC *p = s->pc;
    size_t n = p ? p->depth + 1 : 0;
    while (p && !(p->depth < active.size() && active[p->depth] == p)) { path.push_back(p); p = p->up; }
    popTo(n - path.size());
    for (size_t i = path.size(); i--;) { active.push_back(path[i]); know(path[i]->c); }
}
static void addPC(State *s, Expr *c, bool implied) {
    PC *p = new PC{s->pc, c, s->pc ? s->pc->depth + 1 : 0, implied};
    s->pc = p;
    if (s == S) { active.push_back(p); know(c); }
}
static Z3_func_decl declOf(u32 i) {
    Expr *e = symE(i, symWidth[i]);
    return Z3_get_app_decl(zc, Z3_to_app(zc, toZ(e)));
}
// Symbols of a term, sorted.
typedef std::vector<u32> Syms;
static std::unordered_map<Expr *, const Syms *> symsMemo;
static const Syms *symsOf(Expr *e) {
    static const Syms none;
    if (e->op == CONST) return &none;
    auto it = symsMemo.find(e);
    if (it != symsMemo.end()) return it->second;
    const Syms *r;
    if (e->op == SYM) r = new Syms{(u32)e->k};
    else {
        r = symsOf(e->a);
        for (Expr *x : {e->b, e->c})
            if (x) {
                const Syms *y = symsOf(x);
                if (y == r || y->empty()) continue;
                if (r->empty()) { r = y; continue; }
                Syms *u = new Syms;
                std::set_union(r->begin(), r->end(), y->begin(), y->end(), std::back_inserter(*u));
                if (*u == *r) delete u;
                else if (*u == *y) { delete u; r = y; }
                else r = u;
            }
    }
    symsMemo[e] = r;
    return r;
}
// One literal per constraint: the solver holds "literal implies constraint"
// and every query assumes the literals of the constraints it depends on.
static std::unordered_map<Expr *, Z3_ast> lits, asserted;
static Z3_ast litOf(Expr *c) {
    auto it = asserted.find(c);
    if (it != asserted.end()) return it->second;
    Z3_ast &l = lits[c];
    if (!l) {
        char n[24];
        snprintf(n, sizeof n, "l%u", c->id);
        l = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), Z3_mk_bool_sort(zc));
        Z3_inc_ref(zc, l);
    }
    Z3_solver_assert(zc, solver, Z3_mk_implies(zc, l, toB(c)));
    return asserted[c] = l;
}
// Every query pays for all constraints the solver holds, so it is emptied when
// they have become many (--keep N).
static size_t keepAtMost = 60;
static void refresh() {
    if (asserted.size() < keepAtMost) return;
    asserted.clear();
    Z3_solver_reset(zc, solver);
}
// Products of symbols (hash functions) are hard to invert and easy to evaluate.
// For queries that contain them a satisfying assignment is looked for first,
// and when no more than 8 bits are involved the query is decided by its complete
// truth table.  Everything else is answered by Z3.
static bool hasMul(Expr *e) {
    static std::unordered_map<Expr *, bool> memo;
    if (e->op == CONST || e->op == SYM) return false;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    bool r = e->op == MUL && !(isK(e->b) && e->b->k >> 40 == 0) && !(isK(e->a) && e->a->k >> 40 == 0);
    for (Expr *x : {e->a, e->b, e->c}) if (!r && x) r = hasMul(x);
    return memo[e] = r;
}
static bool hard(Expr *c, const std::vector<Expr *> &slice) {
    if (hasMul(c)) return true;
    for (Expr *x : slice) if (hasMul(x)) return true;
    return false;
}
static u64 tabled = 0;
static const Model *stampOwner = 0;
static u64 rnd() {
    static u64 x = 0x9e3779b97f4a7c15ull;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return x * 0x2545f4914f6cdd1dull >> 16;
}
static int guess(Expr *c, const std::vector<Expr *> &slice, const Syms &syms, Model &m) {
    stampOwner = 0;
    m = *S->model;
    if (m.size() < symWidth.size()) m.resize(symWidth.size(), 0);
    auto holds = [&] {
        evalStamp++;
        if (!evalE(c, m)) return false;
        for (Expr *x : slice) if (!evalE(x, m)) return false;
        return true;
    };
    u32 bits = 0;
    for (u32 i : syms) bits += symWidth[i];
    if (bits > 8) {
        const Model base = m;
        for (int t = 0; t < 400; t++) {
            m = base;
            for (u32 i : syms) {
                u64 full = symWidth[i] >= 64 ? ~0ull : (1ull << symWidth[i]) - 1;
                switch (rnd() % (t % 2 ? 2 : 5)) {
                case 0: m[i] = (rnd() << 32 ^ rnd()) & full; break;
                case 1: m[i] ^= 1ull << rnd() % symWidth[i]; break;
                default: break;
                }
            }
            if (holds()) return 1;
        }
    }
    // Above 8 bits the table covers the symbols of the condition only, with the
    // constraints on nothing else: without a row there is none for all of them.
    const Syms &dom = bits > 8 ? *symsOf(c) : syms;
    std::vector<Expr *> cs{c};
    for (Expr *x : slice)
        if (bits <= 8 || std::includes(dom.begin(), dom.end(), symsOf(x)->begin(), symsOf(x)->end())) cs.push_back(x);
    u32 n = 0;
    for (u32 i : dom) n += symWidth[i];
    if (n > 8) return -1;
    for (u64 v = 0; v < 1ull << n; v++) {
        u64 r = v;
        for (u32 i : dom) { m[i] = r & ((1ull << symWidth[i]) - 1); r >>= symWidth[i]; }
        evalStamp++;
        bool all = true;
        for (Expr *x : cs) if (!evalE(x, m)) { all = false; break; }
        if (all) return bits > 8 ? -1 : 1;
    }
    return 0;
}
struct Cached { bool sat; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::string, Cached> qcache;
static u64 cacheHits = 0;
// Is the current path condition consistent with c?  The query is restricted
// to the constraints that share symbols with c, directly or transitively.
// On success *out is the model of the current state updated for c.
static bool sat(Expr *c, Model *out) {
    if (now() - t0 > timeLimit) throw Unsupported{"time limit"};
    double t = now();
    static std::vector<char> mark;
    mark.assign(symWidth.size(), 0);
    std::vector<u32> todo, rel;
    auto add = [&](const Syms *s) { for (u32 x : *s) if (!mark[x]) { mark[x] = 1; todo.push_back(x); } };
    add(symsOf(c));
    std::vector<Expr *> slice;
    // constraints indexed by symbol would be faster; paths are short
    std::vector<PC *> rest;
    for (PC *p : active) if (!p->implied) rest.push_back(p);
    for (bool more = true; more;) {
        more = false;
        std::vector<PC *> keep;
        for (PC *p : rest) {
            const Syms *s = symsOf(p->c);
            bool hit = false;
            for (u32 x : *s) if (mark[x]) { hit = true; break; }
            if (hit) { slice.push_back(p->c); size_t n = todo.size(); add(s); if (todo.size() != n) more = true; }
            else keep.push_back(p);
        }
        rest.swap(keep);
    }
    std::sort(slice.begin(), slice.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
    slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
    std::string key((const char *)&c->id, 4);
    for (Expr *x : slice) key.append((const char *)&x->id, 4);
    auto it = qcache.find(key);
    if (it == qcache.end() && hard(c, slice)) {
        Model m;
        int r = guess(c, slice, todo, m);
        if (r >= 0) {
            Cached cd{r == 1, {}};
            if (r) for (u32 i : todo) cd.m.push_back({i, m[i]});
            tabled++;
            it = qcache.emplace(key, cd).first;
        }
    }
    if (it == qcache.end()) {
        queries++;
        refresh();
        std::vector<Z3_ast> as;
        for (Expr *x : slice) as.push_back(litOf(x));
        as.push_back(litOf(c));
        stampOwner = 0; // writing terms evaluates them
        Z3_lbool r = Z3_solver_check_assumptions(zc, solver, as.size(), as.data());
        if (r == Z3_L_UNDEF) throw Unsupported{now() - t0 > timeLimit ? "time limit" : "solver gave up"};
        Cached cd{r == Z3_L_TRUE, {}};
        if (cd.sat) {
            satQ++;
            Z3_model m = Z3_solver_get_model(zc, solver);
            Z3_model_inc_ref(zc, m);
            for (u32 i : todo) {
                Z3_ast v = Z3_model_get_const_interp(zc, m, declOf(i));
                u64 x = 0;
                if (v) { if (!Z3_get_numeral_uint64(zc, v, &x)) x = 0; }
                cd.m.push_back({i, x});
            }
            Z3_model_dec_ref(zc, m);
        }
        it = qcache.emplace(key, cd).first;
    } else cacheHits++;
    if (it->second.sat && out) {
        *out = *S->model;
        if (out->size() < symWidth.size()) out->resize(symWidth.size(), 0);
        for (auto &x : it->second.m) (*out)[x.first] = x.second;
    }
    solverTime += now() - t;
    return it->second.sat;
}
static u64 evalM(Expr *c) {
    if (stampOwner != S->model.get()) { evalStamp++; stampOwner = S->model.get(); }
    return (u64)evalE(c, *S->model);
}
static bool inFork = false;
// Decide a condition, forking when both outcomes are feasible.  The caller
// must not have changed the state since the start of the instruction.
static bool branch(Expr *c) {
    if (isK(c)) return c->k != 0;
    Expr *n = notE(c);
    if (known.count(c)) return true;
    if (known.count(n)) return false;
    bool v = evalM(c) != 0;
    Expr *mine = v ? c : n, *other = v ? n : c;
    auto m = std::make_shared<Model>();
    if (sat(other, m.get())) {
        forks++;
        State *o = new State(*S);
        o->model = m;
        PC *p = new PC{o->pc, other, o->pc ? o->pc->depth + 1 : 0, false};
        o->pc = p;
        work.push_back(o);
        addPC(S, mine, false);
    } else addPC(S, mine, true);
    return v;
}
static u64 concretize(Expr *e) {
    for (;;) {
        if (isK(e)) return (u64)e->k;
        u64 v = evalM(e);
        if (branch(eqE(e, K(v, e->w)))) return v;
    }
}

// ---- values ---------------------------------------------------------------
static Expr *E(const Val &v, u32 w) {
    if (v.e) return v.e;
    if (v.g) unsupported("aggregate used as scalar");
    return K(v.c, w);
}
static Val V(Expr *e) {
    Val v;
    if (e->w <= 64 && isK(e)) v.c = (u64)e->k; else v.e = e;
    return v;
}
static Frame &top() {
    FrameRef &f = S->st.back();
    if (f.p->rc > 1) {
        Frame *n = new Frame(*f.p);
        n->rc = 0;
        f = FrameRef(n);
    }
    return *f.p;
}
static const Val &get(const Operand &o) {
    if (o.reg < 0) return o.v;
    return S->st.back().p->r[o.reg];
}
static u64 conc(const Val &v) {
    if (!v.e) return v.c;
    return concretize(v.e);
}

// ---- objects --------------------------------------------------------------
static void putConst(std::vector<u8> &d, u64 off, Type *t, const Val &v) {
    switch (t->k) {
    case Type::STRUCT: for (size_t i = 0; i < t->f.size(); i++) putConst(d, off + t->off[i], t->f[i], v.g->v[i]); return;
    case Type::ARRAY:
        for (u64 i = 0; i < t->n; i++) putConst(d, off + i * t->el->size, t->el, v.g->v[i]);
        return;
    default: {
        u128 x = v.e ? v.e->k : v.c;
        for (u64 i = 0; i < (t->bits + 7) / 8; i++) d[off + i] = (u8)(x >> (8 * i));
    }
    }
}
static Obj *globalObj(u32 slot) {
    if (slot >= M.slots.size() || slot == 0) throw Fail{"access through an invalid pointer"};
    if (gobj.size() <= slot) gobj.resize(M.slots.size() + 64);
    if (!gobj[slot].p) {
        Global *g = M.slots[slot];
        if (g->external) unsupported("external global " + g->name);
        P p{M.src.data() + g->init, M.src.data() + M.src.size()};
        g->ty = type(p);
        Obj *o = new Obj;
        o->size = g->ty->size;
        o->ro = g->constant;
        o->d.assign(o->size, 0);
        if (g->ty->k == Type::ARRAY && p.word("zeroinitializer")) {}
        else putConst(o->d, 0, g->ty, constant(p, g->ty));
        gobj[slot] = ObjRef(o);
    }
    return gobj[slot].p;
}
static Obj *rd(u64 addr, u64 n, u64 &off) {
    u64 slot = addr >> SLOT_BITS;
    off = addr & ((1ull << SLOT_BITS) - 1);
    Obj *o;
    if (slot < HEAP0) {
        auto it = S->gl.find((u32)slot);
        o = it != S->gl.end() ? it->second.p : globalObj((u32)slot);
    } else {
        u64 i = slot - HEAP0;
        if (i >= S->heap.size() || !S->heap[i].p) throw Fail{"access through an invalid pointer"};
        o = S->heap[i].p;
    }
    if (off + n > o->size) throw Fail{"memory access out of bounds"};
    return o;
}
static Obj *wr(u64 addr, u64 n, u64 &off) {
    Obj *o = rd(addr, n, off);
    u64 slot = addr >> SLOT_BITS;
    if (o->ro) throw Fail{"write to read-only memory"};
    if (slot < HEAP0) {
        ObjRef &r = S->gl[(u32)slot];
        if (!r.p) { Obj *c = new Obj(*o); c->rc = 0; r = ObjRef(c); return c; }
        if (r.p->rc > 1) { Obj *c = new Obj(*r.p); c->rc = 0; r = ObjRef(c); }
        return r.p;
    }
    ObjRef &r = S->heap[slot - HEAP0];
    if (r.p->rc > 1) { Obj *c = new Obj(*r.p); c->rc = 0; r = ObjRef(c); }
    return r.p;
}
static u32 newSlot(u64 size) {
    if (size >= (1ull << SLOT_BITS) - 64) throw Unsupported{"object of " + std::to_string(size) + " bytes"};
    Obj *o = new Obj;
    o->size = size;
    o->d.assign(size, 0);
    u32 i;
    if (!S->freeSlots.empty()) { i = S->freeSlots.back(); S->freeSlots.pop_back(); }
    else { i = S->heap.size(); S->heap.emplace_back(); }
    S->heap[i] = ObjRef(o);
    return i;
}
static u64 slotAddr(u32 i) { return (u64)(i + HEAP0) << SLOT_BITS; }
static void freeSlot(u64 addr) {
    u64 slot = addr >> SLOT_BITS;
    if (slot < HEAP0 || slot - HEAP0 >= S->heap.size() || !S->heap[slot - HEAP0].p || (addr & ((1ull << SLOT_BITS) - 1)))
        throw Fail{"invalid or double free"};
    S->heap[slot - HEAP0] = ObjRef();
    S->freeSlots.push_back(slot - HEAP0);
}
static Expr *byteE(Obj *o, u64 i) {
    if (!o->s.empty() && o->s[i]) return o->s[i];
    return K(o->d[i], 8);
}
static void setByte(Obj *o, u64 i, Expr *e) {
    if (isK(e)) { o->d[i] = (u8)e->k; if (!o->s.empty()) o->s[i] = 0; return; }
    if (o->s.empty()) o->s.assign(o->size, 0);
    o->s[i] = e;
}
static Val loadBits(Obj *o, u64 off, u32 bits) {
    u32 n = (bits + 7) / 8;
    bool sym = false;
    if (!o->s.empty()) for (u32 i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
    if (!sym && bits <= 64) {
        u64 x = 0;
        memcpy(&x, &o->d[off], n);
        return kv(x & (u64)maskw(bits));
    }
    Expr *e = byteE(o, off);
    for (u32 i = 1; i < n; i++) e = concat(byteE(o, off + i), e);
    if (e->w != bits) e = extract(e, 0, bits);
    return V(e);
}
static void storeBits(Obj *o, u64 off, u32 bits, const Val &v) {
    u32 n = (bits + 7) / 8;
    if (!v.e && bits <= 64) {
        u64 x = v.c;
        memcpy(&o->d[off], &x, n);
        if (!o->s.empty()) for (u32 i = 0; i < n; i++) o->s[off + i] = 0;
        return;
    }
    Expr *e = E(v, bits);
    if (e->w < n * 8) e = zext(e, n * 8);
    for (u32 i = 0; i < n; i++) setByte(o, off + i, extract(e, 8 * i, 8));
}
static Val loadT(Obj *o, u64 off, Type *t) {
    if (t->k == Type::STRUCT || t->k == Type::ARRAY) {
        Val v; v.g = new Agg;
        size_t n = t->k == Type::ARRAY ? t->n : t->f.size();
        for (size_t i = 0; i < n; i++) v.g->v.push_back(t->k == Type::ARRAY ? loadT(o, off + i * t->el->size, t->el) : loadT(o, off + t->off[i], t->f[i]));
        return v;
    }
    return loadBits(o, off, t->bits);
}
static void storeT(Obj *o, u64 off, Type *t, const Val &v) {
    if (t->k == Type::STRUCT || t->k == Type::ARRAY) {
        size_t n = t->k == Type::ARRAY ? t->n : t->f.size();
        for (size_t i = 0; i < n; i++) t->k == Type::ARRAY ? storeT(o, off + i * t->el->size, t->el, v.g->v[i]) : storeT(o, off + t->off[i], t->f[i], v.g->v[i]);
        return;
    }
    storeBits(o, off, t->bits, v);
}
static u64 tsize(Type *t) { return t->scalar() ? (t->bits + 7) / 8 : t->size; }
// Load through a symbolic address: a table lookup in a constant object
// becomes a term, everything else is split into one path per address.
static bool tableLoad(Expr *a, Type *t, Val &out) {
    if (t->k != Type::INT || t->bits > 64) return false;
    u64 m = evalM(a), off;
    Obj *o;
    u64 n = tsize(t);
    if ((m >> SLOT_BITS) >= HEAP0) return false;
    o = rd(m, n, off);
    if (!o->ro || o->size > 4096) return false;
    u64 base = m - off;
    Expr *in = bin(AND, bin(ULE, K(base, 64), a), bin(ULE, a, K(base + o->size - n, 64)));
    // only when every feasible address is in range
    if (!isK(in)) {
        Expr *out1 = notE(in);
        if (!known.count(in)) {
            if (sat(out1, 0)) return false;
            addPC(S, in, true);
        }
    } else if (!in->k) return false;
    // stride: assume multiples of n relative to the observed offset only if provable
    u64 step = 1;
    if (n > 1) {
        u64 al = off % n;
        Expr *okA = eqE(bin(AND, bin(SUB, a, K(base, 64)), K(n - 1, 64)), K(al, 64));
        if ((n & (n - 1)) || (!isK(okA, 1) && !known.count(okA) && sat(notE(okA), 0))) return false;
        step = n;
        off = al;
    } else off = 0;
    std::vector<std::pair<u64, u64>> runs; // last offset, value
    for (u64 i = off; i + n <= o->size; i += step) {
        u64 x = 0;
        memcpy(&x, &o->d[i], n);
        x &= (u64)maskw(t->bits);
        if (!runs.empty() && runs.back().second == x) runs.back().first = i; else runs.push_back({i, x});
    }
    Expr *r = K(runs.back().second, t->bits);
    for (size_t i = runs.size() - 1; i--;) r = ite(bin(ULE, a, K(base + runs[i].first, 64)), K(runs[i].second, t->bits), r);
    out = V(r);
    return true;
}

// ---- floating point comparisons on bit patterns -----------------------------
static Expr *fcmp(int pred, Expr *a, Expr *b) {
    u32 w = a->w, mant = w == 64 ? 52 : 23;
    Expr *mag = K(maskw(w - 1), w), *inf = K((maskw(w - 1 - mant)) << mant, w);
    auto nan = [&](Expr *x) { return bin(ULT, inf, bin(AND, x, mag)); };
    Expr *uno = bin(OR, nan(a), nan(b)), *ord = notE(uno);
    Expr *zero = eqE(bin(AND, bin(OR, a, b), mag), K(0, w));
    Expr *same = bin(OR, eqE(a, b), zero);
    // monotone map of the bit pattern to a signed integer
    auto key = [&](Expr *x) { return ite(extract(x, w - 1, 1), bin(SUB, K((u128)1 << (w - 1), w), x), x); };
    Expr *lt = bin(AND, bin(SLT, key(a), key(b)), K(1, 1)), *gt = bin(SLT, key(b), key(a));
    switch (pred) {
    case F_FALSE: return K(0, 1);
    case F_TRUE: return K(1, 1);
    case F_ORD: return ord;
    case F_UNO: return uno;
    case F_OEQ: return bin(AND, ord, same);
    case F_ONE: return bin(AND, ord, notE(same));
    case F_UEQ: return bin(OR, uno, same);
    case F_UNE: return bin(OR, uno, notE(same));
    case F_OLT: return bin(AND, ord, lt);
    case F_OGT: return bin(AND, ord, gt);
    case F_OLE: return bin(AND, ord, bin(OR, lt, same));
    case F_OGE: return bin(AND, ord, bin(OR, gt, same));
    case F_ULT: return bin(OR, uno, lt);
    case F_UGT: return bin(OR, uno, gt);
    case F_ULE: return bin(OR, uno, bin(OR, lt, same));
    case F_UGE: return bin(OR, uno, bin(OR, gt, same));
    }
    unsupported("fcmp");
}
static Expr *icmp(int p, Expr *a, Expr *b) {
    switch (p) {
    case P_EQ: return eqE(a, b);
    case P_NE: return notE(eqE(a, b));
    case P_UGT: return bin(ULT, b, a);
    case P_UGE: return bin(ULE, b, a);
    case P_ULT: return bin(ULT, a, b);
    case P_ULE: return bin(ULE, a, b);
    case P_SGT: return bin(SLT, b, a);
    case P_SGE: return bin(SLE, b, a);
    case P_SLT: return bin(SLT, a, b);
    default: return bin(SLE, a, b);
    }
}
static bool icmpC(int p, u64 a, u64 b, u32 w) {
    i64 x = (i64)sx(a, w), y = (i64)sx(b, w);
    switch (p) {
    case P_EQ: return a == b;
    case P_NE: return a != b;
    case P_UGT: return a > b;
    case P_UGE: return a >= b;
    case P_ULT: return a < b;
    case P_ULE: return a <= b;
    case P_SGT: return x > y;
    case P_SGE: return x >= y;
    case P_SLT: return x < y;
    default: return x <= y;
    }
}
template <class F> static Expr *lanes(Type *t, Expr *a, Expr *b, u32 outw, F f) {
    u32 lw = t->el->bits;
    Expr *r = 0;
    for (u64 i = 0; i < t->n; i++) {
        Expr *x = f(extract(a, i * lw, lw), b ? extract(b, i * lw, lw) : 0);
        r = r ? concat(x, r) : x;
    }
    (void)outw;
    return r;
}

// ---- results --------------------------------------------------------------
struct Failure { std::string msg; std::vector<u64> draws; };
static std::vector<Failure> failures;
static std::map<std::string, u64> incomplete;
static std::set<std::string> witnesses;
static void report(const std::string &msg) {
    for (auto &f : failures) if (f.msg == msg) return;
    Failure f;
    f.msg = msg;
    stampOwner = 0;
    for (auto &d : S->draws) f.draws.push_back(evalM(d.first));
    failures.push_back(f);
}
// Inputs of some completed paths, for the evidence and for native comparison.
static std::vector<std::vector<u64>> samples;
static void sample() {
    if (samples.size() >= 40 || (paths & (paths - 1))) return;
    std::vector<u64> d;
    stampOwner = 0;
    for (auto &x : S->draws) d.push_back(evalM(x.first));
    samples.push_back(d);
}
static std::string cstr(u64 p, u64 n) {
    std::string s;
    try {
        u64 off;
        Obj *o = rd(p, n, off);
        for (u64 i = 0; i < n && i < 400; i++) s += (char)o->d[off + i];
    } catch (...) { s = "?"; }
    return s;
}
static std::string location(const Val &v) {
    if (v.e || v.g) return "?";
    try {
        u64 off;
        Obj *o = rd(v.c, 24, off);
        u64 fp, fl;
        u32 line;
        memcpy(&fp, &o->d[off], 8); memcpy(&fl, &o->d[off + 8], 8); memcpy(&line, &o->d[off + 16], 4);
        if (fl > 300) return "?";
        return cstr(fp, fl) + ":" + std::to_string(line);
    } catch (...) { return "?"; }
}

// ---- calls ----------------------------------------------------------------
enum Intr { X_NONE = -1, X_IGNORE = 0, X_MEMCPY, X_MEMSET, X_CTPOP, X_CTLZ, X_CTTZ, X_BSWAP, X_BITREV, X_FSHL, X_FSHR, X_UADDO, X_USUBO, X_UMULO, X_SADDO, X_SSUBO, X_SMULO,
    X_UADDS, X_USUBS, X_SADDS, X_SSUBS, X_UMAX, X_UMIN, X_SMAX, X_SMIN, X_ABS, X_UCMP, X_SCMP, X_ISCONST, X_TLS, X_TRAP, X_EXPECT, X_PTRMASK, X_OBJSIZE, X_PMOVMSK,
    X_MALLOC, X_CALLOC, X_FREE, X_REALLOC, X_MEMALIGN, X_BCMP, X_MEMCMP, X_DRAW, X_ASSUME, X_WITNESS, X_FAIL, X_HEAPLIM, X_SHARD, X_PANIC, X_ABORT, X_VRED, X_STRLEN, X_CONC, X_UNKNOWN };
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }
static int classify(const std::string &n, Function *f) {
    if (starts(n, "llvm.")) {
        static const std::pair<const char *, int> t[] = {
            {"llvm.lifetime", X_IGNORE}, {"llvm.assume", X_IGNORE}, {"llvm.experimental.noalias", X_IGNORE}, {"llvm.dbg", X_IGNORE}, {"llvm.invariant", X_IGNORE}, {"llvm.prefetch", X_IGNORE}, {"llvm.x86.sse2.pause", X_IGNORE}, {"llvm.donothing", X_IGNORE}, {"llvm.sideeffect", X_IGNORE},
            {"llvm.memcpy", X_MEMCPY}, {"llvm.memmove", X_MEMCPY}, {"llvm.memset", X_MEMSET}, {"llvm.ctpop", X_CTPOP}, {"llvm.ctlz", X_CTLZ}, {"llvm.cttz", X_CTTZ}, {"llvm.bswap", X_BSWAP}, {"llvm.bitreverse", X_BITREV}, {"llvm.fshl", X_FSHL}, {"llvm.fshr", X_FSHR},
            {"llvm.uadd.with", X_UADDO}, {"llvm.usub.with", X_USUBO}, {"llvm.umul.with", X_UMULO}, {"llvm.sadd.with", X_SADDO}, {"llvm.ssub.with", X_SSUBO}, {"llvm.smul.with", X_SMULO},
            {"llvm.uadd.sat", X_UADDS}, {"llvm.usub.sat", X_USUBS}, {"llvm.sadd.sat", X_SADDS}, {"llvm.ssub.sat", X_SSUBS}, {"llvm.umax", X_UMAX}, {"llvm.umin", X_UMIN}, {"llvm.smax", X_SMAX}, {"llvm.smin", X_SMIN}, {"llvm.abs", X_ABS}, {"llvm.ucmp", X_UCMP}, {"llvm.scmp", X_SCMP},
            {"llvm.is.constant", X_ISCONST}, {"llvm.threadlocal.address", X_TLS}, {"llvm.trap", X_TRAP}, {"llvm.expect", X_EXPECT}, {"llvm.ptrmask", X_PTRMASK}, {"llvm.objectsize", X_OBJSIZE}, {"llvm.x86.sse2.pmovmskb.128", X_PMOVMSK}, {"llvm.vector.reduce", X_VRED}};
        for (auto &x : t) if (starts(n, x.first)) return x.second;
        return X_UNKNOWN;
    }
    static const std::unordered_map<std::string, int> ext = {
        {"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"free", X_FREE}, {"realloc", X_REALLOC}, {"posix_memalign", X_MEMALIGN}, {"bcmp", X_BCMP}, {"memcmp", X_MEMCMP}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"strlen", X_STRLEN},
        {"sx_draw", X_DRAW}, {"sx_assume", X_ASSUME}, {"sx_witness", X_WITNESS}, {"sx_fail", X_FAIL}, {"sx_heap_limit", X_HEAPLIM}, {"sx_shard", X_SHARD}, {"sx_concrete", X_CONC}, {"abort", X_ABORT}};
    auto it = ext.find(n);
    if (it != ext.end()) return it->second;
    if (has(n, "4core9panicking") && (has(n, "9panic_fmt") || has(n, "18panic_nounwind_fmt") || has(n, "panic_const") || has(n, "9panicking5panic") || has(n, "18panic_bounds_check") || has(n, "9panicking14panic_nounwind") || has(n, "19panic_cannot_unwind") || has(n, "13assert_failed") || has(n, "panic_display") || has(n, "19assert_failed_inner")))
        return X_PANIC;
    if (has(n, "rust_begin_unwind") || has(n, "rust_panic_with_hook") || has(n, "begin_panic") || has(n, "handle_alloc_error") || has(n, "17capacity_overflow") || has(n, "12handle_error") || has(n, "13expect_failed") || has(n, "13unwrap_failed") || has(n, "slice_index_fail") || has(n, "slice_error_fail"))
        return X_PANIC;
    if (!f || !f->from) return X_UNKNOWN;
    return X_NONE;
}

static u64 allocSize(const Val &v, u64 freed = 0) {
    // only meaningful for bounded sizes; very large ones are failures or limits
    static const char *above = "heap use above the stated bound";
    u64 room = S->heapLimit == ~0ull ? ~0ull : S->heapLimit + freed - std::min(S->heapUse, S->heapLimit + freed);
    u64 n = v.c;
    if (v.e) {
        if (room != ~0ull && branch(bin(ULT, K(room, 64), v.e))) throw Fail{above};
        if (branch(bin(ULT, K(1 << 21, 64), v.e))) throw Unsupported{"allocation of more than 2 MiB"};
        n = concretize(v.e);
    }
    if (n > room) throw Fail{above};
    if (n > (1 << 21)) throw Unsupported{"allocation of more than 2 MiB"};
    S->heapUse += n - freed;
    return n;
}
static void copyBytes(u64 dst, u64 src, u64 n) {
    if (!n) return;
    u64 so, dof;
    Obj *s = rd(src, n, so);
    Obj *d = wr(dst, n, dof);
    s = rd(src, n, so); // wr may have cloned the same object
    memmove(&d->d[dof], &s->d[so], n);
    if (!s->s.empty()) {
        if (d->s.empty()) d->s.assign(d->size, 0);
        memmove(&d->s[dof], &s->s[so], n * sizeof(Expr *));
    } else if (!d->s.empty()) std::fill(d->s.begin() + dof, d->s.begin() + dof + n, (Expr *)0);
}

static void setDst(const Inst &in, const Val &v) { if (in.dst >= 0) top().r[in.dst] = v; }
static Val pairV(const Val &a, const Val &b) { Val v; v.g = new Agg{{a, b}}; return v; }
static std::set<Function *> executed;

static void pushFrame(Function *f, std::vector<Val> &args, const Inst *) {
    if (!f->parsed) parseFn(f);
    if (!f->hit) { f->hit = true; executed.insert(f); }
    if (S->st.size() > 1000) throw Fail{"recursion deeper than 1000 calls"};
    Frame *fr = new Frame;
    fr->fn = f;
    fr->r.resize(f->nregs);
    for (size_t i = 0; i < args.size() && i < (size_t)f->nargs; i++) fr->r[i] = args[i];
    S->st.emplace_back(fr);
}
static void advance() { top().ip++; }
static void jump(int bb) { Frame &f = top(); f.prev = f.bb; f.bb = bb; f.ip = 0; }
static void done(const Inst &in) { // after a call returns
    if (!in.idx.empty()) jump(in.idx[0]); else advance();
}

static std::string where() {
    // innermost frames for diagnostics
    std::string s;
    for (size_t i = S->st.size(); i-- && s.size() < 600;) s += S->st[i].p->fn->name + " ";
    return s;
}

static void call(Inst &in) {
    Function *f = in.fn;
    std::vector<Val> a;
    a.reserve(in.o.size());
    for (size_t i = 1; i < in.o.size(); i++) a.push_back(get(in.o[i]));
    if (!f && in.name.empty()) {
        u64 p = conc(get(in.o[0]));
        if (p < FN_BASE || (p - FN_BASE) / 16 >= M.fnlist.size()) throw Fail{"call through an invalid pointer"};
        f = M.fnlist[(p - FN_BASE) / 16];
        int k = classify(f->name, f);
        if (k == X_NONE) { pushFrame(f, a, &in); return; }
        Inst tmp = in;
        tmp.fn = f; tmp.name = f->name; tmp.intr = -1;
        call(tmp);
        return;
    }
    if (in.intr == -1) in.intr = classify(in.name, f) + 1000;
    int k = in.intr - 1000;
    auto A = [&](size_t i) { return E(a[i], in.at[i]->bits); };
    u32 w = in.at.empty() ? 0 : in.at[0]->bits;
    bool con = true;
    for (size_t i = 0; i < a.size(); i++) if (a[i].e || a[i].g) con = false;
    auto ret = [&](Expr *e) { setDst(in, V(e)); done(in); };
    auto vecop = [&](Expr *(*f2)(Expr *, Expr *)) {
        Type *t = in.at[0];
        if (t->k == Type::VEC) ret(lanes(t, A(0), a.size() > 1 ? A(1) : 0, 0, f2)); else ret(f2(A(0), a.size() > 1 ? A(1) : 0));
    };
    switch (k) {
    case X_NONE: pushFrame(f, a, &in); return;
    case X_IGNORE: done(in); return;
    case X_MEMCPY: {
        u64 n = conc(a[2]);
        u64 d = 0, s = 0;
        if (n) { d = conc(a[0]); s = conc(a[1]); }
        copyBytes(d, s, n);
        if (in.dst >= 0) setDst(in, a[0]);
        done(in);
        return;
    }
    case X_MEMSET: {
        u64 n = conc(a[2]);
        if (n) {
            u64 d = conc(a[0]), off;
            Expr *v = a[1].e ? extract(a[1].e, 0, 8) : 0;
            Obj *o = wr(d, n, off);
            for (u64 i = 0; i < n; i++) { if (v) setByte(o, off + i, v); else { o->d[off + i] = (u8)a[1].c; if (!o->s.empty()) o->s[off + i] = 0; } }
        }
        if (in.dst >= 0) setDst(in, a[0]);
        done(in);
        return;
    }
    case X_CTPOP: {
        Expr *x = A(0), *r = K(0, w);
        if (in.at[0]->k == Type::VEC) unsupported("vector ctpop");
        for (u32 i = 0; i < w; i++) r = bin(ADD, r, zext(extract(x, i, 1), w));
        ret(r);
        return;
    }
    case X_CTLZ: case X_CTTZ: {
        if (in.at[0]->k == Type::VEC) unsupported("vector count zeros");
        Expr *x = A(0), *r = K(w, w);
        if (k == X_CTLZ) for (u32 i = 0; i < w; i++) r = ite(extract(x, i, 1), K(w - 1 - i, w), r);
        else for (u32 i = w; i--;) r = ite(extract(x, i, 1), K(i, w), r);
        ret(r);
        return;
    }
    case X_BSWAP: {
        if (in.at[0]->k == Type::VEC) unsupported("vector bswap");
        Expr *x = A(0), *r = extract(x, 0, 8);
        for (u32 i = 8; i < w; i += 8) r = concat(r, extract(x, i, 8));
        ret(r);
        return;
    }
    case X_BITREV: {
        Expr *x = A(0), *r = extract(x, 0, 1);
        for (u32 i = 1; i < w; i++) r = concat(r, extract(x, i, 1));
        ret(r);
        return;
    }
    case X_FSHL: case X_FSHR: {
        Expr *s = bin(UREM, A(2), K(w, w)), *both = concat(A(0), A(1));
        if (isK(s)) {
            u32 n = (u32)s->k;
            if (k == X_FSHL) ret(extract(both, w - n, w)); else ret(extract(both, n, w));
        } else {
            Expr *inv = bin(SUB, K(w, w), s);
            if (k == X_FSHL) ret(bin(OR, bin(SHL, A(0), s), bin(LSHR, A(1), inv)));
            else ret(bin(OR, bin(SHL, A(0), inv), bin(LSHR, A(1), s)));
        }
        return;
    }
    case X_UADDO: case X_USUBO: case X_UMULO: case X_SADDO: case X_SSUBO: case X_SMULO: {
        Expr *x = A(0), *y = A(1), *r, *o;
        if (k == X_UADDO) { r = bin(ADD, x, y); o = x->hi + y->hi <= maskw(w) && x->hi + y->hi >= x->hi ? K(0, 1) : bin(ULT, r, x); if (isK(y) && !isK(o)) o = bin(ULT, K(maskw(w) - y->k, w), x); }
        else if (k == X_USUBO) { r = bin(SUB, x, y); o = bin(ULT, x, y); }
        else if (k == X_UMULO) {
            r = bin(MUL, x, y);
            if (w <= 64 && x->hi * y->hi <= maskw(w)) o = K(0, 1);
            else if (isK(y) && y->k) o = bin(ULT, K(maskw(w) / y->k, w), x);
            else { Expr *p = bin(MUL, zext(x, 2 * w), zext(y, 2 * w)); o = notE(eqE(extract(p, w, w), K(0, w))); }
        } else {
            u32 w2 = k == X_SMULO ? 2 * w : w + 1;
            if (w2 > 128) unsupported("wide signed overflow");
            Expr *p = bin(k == X_SADDO ? ADD : k == X_SSUBO ? SUB : MUL, sext(x, w2), sext(y, w2));
            r = extract(p, 0, w);
            o = notE(eqE(p, sext(r, w2)));
        }
        setDst(in, pairV(V(r), V(o)));
        done(in);
        return;
    }
    case X_UADDS: ret(ite(bin(ULT, bin(ADD, A(0), A(1)), A(0)), K(maskw(w), w), bin(ADD, A(0), A(1)))); return;
    case X_USUBS: ret(ite(bin(ULT, A(0), A(1)), K(0, w), bin(SUB, A(0), A(1)))); return;
    case X_UMAX: vecop([](Expr *x, Expr *y) { return ite(bin(ULT, x, y), y, x); }); return;
    case X_UMIN: vecop([](Expr *x, Expr *y) { return ite(bin(ULT, x, y), x, y); }); return;
    case X_SMAX: vecop([](Expr *x, Expr *y) { return ite(bin(SLT, x, y), y, x); }); return;
    case X_SMIN: vecop([](Expr *x, Expr *y) { return ite(bin(SLT, x, y), x, y); }); return;
    case X_ABS: ret(ite(extract(A(0), w - 1, 1), bin(SUB, K(0, w), A(0)), A(0))); return;
    case X_UCMP: case X_SCMP: {
        u32 rw = in.ty->bits;
        Op lt = k == X_UCMP ? ULT : SLT;
        ret(ite(bin(lt, A(0), A(1)), K(maskw(rw), rw), ite(eqE(A(0), A(1)), K(0, rw), K(1, rw))));
        return;
    }
    case X_ISCONST: ret(K(0, 1)); return;
    case X_TLS: case X_EXPECT: setDst(in, a[0]); done(in); return;
    case X_TRAP: throw Fail{"trap"};
    case X_PTRMASK: ret(bin(AND, A(0), A(1))); return;
    case X_OBJSIZE: ret(K(maskw(in.ty->bits), in.ty->bits)); return;
    case X_PMOVMSK: {
        Expr *x = A(0), *r = 0;
        for (u32 i = 0; i < 16; i++) { Expr *b = extract(x, 8 * i + 7, 1); r = r ? concat(b, r) : b; }
        ret(zext(r, 32));
        return;
    }
    case X_VRED: {
        Type *t = in.at[0];
        u32 lw = t->el->bits;
        Expr *x = A(0), *r = extract(x, 0, lw);
        for (u64 i = 1; i < t->n; i++) {
            Expr *y = extract(x, i * lw, lw);
            if (has(in.name, "reduce.or")) r = bin(OR, r, y);
            else if (has(in.name, "reduce.and")) r = bin(AND, r, y);
            else if (has(in.name, "reduce.add")) r = bin(ADD, r, y);
            else if (has(in.name, "reduce.xor")) r = bin(XOR, r, y);
            else if (has(in.name, "reduce.umax")) r = ite(bin(ULT, r, y), y, r);
            else unsupported(in.name);
        }
        ret(r);
        return;
    }
    case X_MALLOC: case X_CALLOC: {
        u64 n = k == X_MALLOC ? allocSize(a[0]) : allocSize(V(bin(MUL, A(0), A(1))));
        setDst(in, kv(slotAddr(newSlot(n))));
        done(in);
        return;
    }
    case X_MEMALIGN: {
        u64 n = allocSize(a[2]), p = conc(a[0]), off;
        Obj *o = wr(p, 8, off);
        storeBits(o, off, 64, kv(slotAddr(newSlot(n))));
        ret(K(0, 32));
        return;
    }
    case X_REALLOC: {
        u64 p = conc(a[0]), off, osz = p ? rd(p, 0, off)->size : 0, n = allocSize(a[1], osz);
        if (!p) { setDst(in, kv(slotAddr(newSlot(n)))); done(in); return; }
        u64 q = slotAddr(newSlot(n));
        copyBytes(q, p, osz < n ? osz : n);
        freeSlot(p);
        setDst(in, kv(q));
        done(in);
        return;
    }
    case X_FREE: {
        u64 p = conc(a[0]), off;
        if (p) { S->heapUse -= rd(p, 0, off)->size; freeSlot(p); }
        done(in);
        return;
    }
    case X_STRLEN: {
        u64 p = conc(a[0]), n = 0, off;
        for (;; n++) { Obj *o = rd(p + n, 1, off); if (!branch(notE(eqE(byteE(o, off), K(0, 8))))) break; }
        ret(K(n, 64));
        return;
    }
    case X_BCMP: case X_MEMCMP: {
        u64 n = conc(a[2]);
        if (!n) { ret(K(0, 32)); return; }
        u64 x = conc(a[0]), y = conc(a[1]), xo, yo;
        Obj *p = rd(x, n, xo), *q = rd(y, n, yo);
        Expr *r;
        if (k == X_BCMP) {
            Expr *same = K(1, 1);
            for (u64 i = 0; i < n; i++) same = bin(AND, same, eqE(byteE(p, xo + i), byteE(q, yo + i)));
            r = ite(same, K(0, 32), K(1, 32));
        } else {
            r = K(0, 32);
            for (u64 i = n; i--;) {
                Expr *bx = byteE(p, xo + i), *by = byteE(q, yo + i);
                r = ite(eqE(bx, by), r, bin(SUB, zext(bx, 32), zext(by, 32)));
            }
        }
        ret(r);
        return;
    }
    case X_DRAW: {
        u32 bits = (u32)conc(a[0]);
        u32 i = S->draws.size();
        // a symbol per position and width
        static std::map<std::pair<u32, u32>, u32> ids;
        auto it = ids.find({i, bits});
        u32 id;
        if (it == ids.end()) { id = symWidth.size(); symWidth.push_back(bits); ids[{i, bits}] = id; } else id = it->second;
        Expr *s = symE(id, bits);
        S->draws.push_back({s, bits});
        setDst(in, V(zext(s, 64)));
        done(in);
        return;
    }
    case X_SHARD: {
        u64 n = conc(a[0]);
        if (S->shardLeft > 1 && n > 1 && S->shardLeft % n == 0) {
            u64 v = S->shardRest % n;
            S->shardRest /= n;
            S->shardLeft /= n;
            S->draws.push_back({K(v, 32), 32});
            setDst(in, kv(v));
            done(in);
            return;
        }
        u32 i = S->draws.size();
        static std::map<u32, u32> ids;
        auto it = ids.find(i);
        u32 id;
        if (it == ids.end()) { id = symWidth.size(); symWidth.push_back(32); ids[i] = id; } else id = it->second;
        Expr *s = symE(id, 32);
        // split over all values
        if (!branch(bin(ULT, s, K(n, 32)))) { dead++; throw PathEnd(); }
        u64 v = concretize(s);
        S->draws.push_back({s, 32});
        setDst(in, kv(v));
        done(in);
        return;
    }
    case X_CONC: { u64 v = conc(a[0]); setDst(in, kv(v)); done(in); return; }
    case X_ASSUME: {
        Expr *c = A(0);
        c = c->w == 1 ? c : notE(eqE(c, K(0, c->w)));
        if (isK(c)) { if (!c->k) { dead++; throw PathEnd(); } done(in); return; }
        if (known.count(c)) { done(in); return; }
        if (!evalM(c)) {
            auto m = std::make_shared<Model>();
            if (!sat(c, m.get())) { dead++; throw PathEnd(); }
            S->model = m; stampOwner = 0;
        }
        addPC(S, c, false);
        done(in);
        return;
    }
    case X_WITNESS: witnesses.insert(cstr(conc(a[0]), conc(a[1]))); done(in); return;
    case X_FAIL: throw Fail{cstr(conc(a[0]), conc(a[1]))};
    case X_HEAPLIM: { u64 n = conc(a[0]); S->heapLimit = n == ~0ull ? n : S->heapUse + n; done(in); return; }
    case X_ABORT: throw Fail{"abort"};
    case X_PANIC: {
        std::string m = "panic";
        std::string loc = "?";
        for (size_t i = a.size(); i--;) if (in.at[i]->k == Type::PTR) { loc = location(a[i]); if (loc != "?") break; }
        if (has(in.name, "handle_alloc_error") || has(in.name, "capacity_overflow") || has(in.name, "12handle_error")) m = "allocation failure";
        if (loc == "?") {
            // the location is a constant of the innermost caller we can name
            m += " in " + S->st.back().p->fn->name;
        }
        throw Fail{m + " at " + loc};
    }
    default: unsupported("call of " + in.name);
    }
    (void)con;
}

// ---- interpreter ----------------------------------------------------------
static void step() {
    Frame *fp = S->st.back().p;
    Inst &in = fp->fn->b[fp->bb].in[fp->ip];
    switch (in.op) {
    case I_BIN: {
        const Val &a = get(in.o[0]), &b = get(in.o[1]);
        u32 w = in.ty->bits;
        if (in.ty->k == Type::VEC) {
            Op op = (Op)in.sub;
            Val r = V(lanes(in.ty, E(a, w), E(b, w), 0, [op](Expr *x, Expr *y) { return bin(op, x, y); }));
            setDst(in, r);
        } else if (!a.e && !b.e) {
            if ((in.sub == UDIV || in.sub == SDIV || in.sub == UREM || in.sub == SREM) && b.c == 0) throw Fail{"division by zero"};
            setDst(in, kv((u64)fold((Op)in.sub, w, a.c, b.c)));
        } else {
            if (in.ty->k == Type::FLOAT) unsupported("floating point arithmetic");
            Expr *x = E(a, w), *y = E(b, w);
            if ((in.sub == UDIV || in.sub == SDIV || in.sub == UREM || in.sub == SREM) && branch(eqE(y, K(0, w)))) throw Fail{"division by zero"};
            setDst(in, V(bin((Op)in.sub, x, y)));
        }
        break;
    }
    case I_ICMP: {
        const Val &a = get(in.o[0]), &b = get(in.o[1]);
        u32 w = in.ty->bits;
        int p = in.sub;
        if (in.ty->k == Type::VEC) setDst(in, V(lanes(in.ty, E(a, w), E(b, w), 0, [p](Expr *x, Expr *y) { return icmp(p, x, y); })));
        else if (!a.e && !b.e) setDst(in, kv(icmpC(p, a.c, b.c, w)));
        else setDst(in, V(icmp(p, E(a, w), E(b, w))));
        break;
    }
    case I_FCMP: {
        u32 w = in.ty->bits;
        if (in.ty->k == Type::VEC) unsupported("vector fcmp");
        setDst(in, V(fcmp(in.sub, E(get(in.o[0]), w), E(get(in.o[1]), w))));
        break;
    }
    case I_CAST_ZEXT: case I_CAST_SEXT: case I_CAST_TRUNC: {
        const Val &a = get(in.o[0]);
        u32 w = in.ty->bits, w2 = in.ty2->bits;
        if (in.ty->k == Type::VEC) {
            u32 l2 = in.ty2->el->bits;
            IOp op = in.op;
            setDst(in, V(lanes(in.ty, E(a, w), 0, 0, [op, l2](Expr *x, Expr *) { return op == I_CAST_ZEXT ? zext(x, l2) : op == I_CAST_SEXT ? sext(x, l2) : extract(x, 0, l2); })));
        } else if (!a.e && w <= 64 && w2 <= 64) {
            u64 c = in.op == I_CAST_SEXT ? (u64)sx(a.c, w) : a.c;
            setDst(in, kv(c & (u64)maskw(w2)));
        } else {
            Expr *x = E(a, w);
            setDst(in, V(in.op == I_CAST_ZEXT ? zext(x, w2) : in.op == I_CAST_SEXT ? sext(x, w2) : extract(x, 0, w2)));
        }
        break;
    }
    case I_BITCAST: {
        const Val &a = get(in.o[0]);
        u32 w = in.ty->bits, w2 = in.ty2->bits;
        if (w == w2) setDst(in, a);
        else { Expr *x = E(a, w); setDst(in, V(w2 > w ? zext(x, w2) : extract(x, 0, w2))); }
        break;
    }
    case I_FREEZE: setDst(in, get(in.o[0])); break;
    case I_SELECT: {
        const Val c = get(in.o[0]);
        if (in.ty2->k == Type::VEC) {
            u32 lw = in.ty->el->bits;
            Expr *cc = E(c, in.ty2->bits), *x = E(get(in.o[1]), in.ty->bits), *y = E(get(in.o[2]), in.ty->bits), *r = 0;
            for (u64 i = 0; i < in.ty->n; i++) {
                Expr *l = ite(extract(cc, i, 1), extract(x, i * lw, lw), extract(y, i * lw, lw));
                r = r ? concat(l, r) : l;
            }
            setDst(in, V(r));
            break;
        }
        if (!c.e) { Val v = get(in.o[c.c ? 1 : 2]); setDst(in, v); break; }
        if (known.count(c.e)) { Val v = get(in.o[1]); setDst(in, v); break; }
        if (known.count(notE(c.e))) { Val v = get(in.o[2]); setDst(in, v); break; }
        // sizes and addresses stay concrete: one path per choice
        bool split = in.ty->bits == 64 && !get(in.o[1]).e && !get(in.o[2]).e;
        if (in.ty->k == Type::INT && in.ty->bits <= 128 && !split) {
            setDst(in, V(ite(c.e, E(get(in.o[1]), in.ty->bits), E(get(in.o[2]), in.ty->bits))));
        } else {
            bool b = branch(c.e);
            Val v = get(in.o[b ? 1 : 2]);
            setDst(in, v);
        }
        break;
    }
    case I_ALLOCA: {
        u64 n = in.ty->size;
        if (!in.o.empty()) n *= conc(get(in.o[0]));
        u32 i = newSlot(n);
        Frame &f = top();
        f.allocas.push_back(i);
        f.r[in.dst] = kv(slotAddr(i));
        break;
    }
    case I_LOAD: {
        const Val a = get(in.o[0]);
        u64 addr;
        if (a.e) {
            Val v;
            if (tableLoad(a.e, in.ty, v)) { setDst(in, v); break; }
            addr = concretize(a.e);
        } else addr = a.c;
        u64 off;
        Obj *o = rd(addr, tsize(in.ty), off);
        setDst(in, loadT(o, off, in.ty));
        break;
    }
    case I_STORE: {
        u64 addr = conc(get(in.o[1])), off;
        Obj *o = wr(addr, tsize(in.ty), off);
        storeT(o, off, in.ty, get(in.o[0]));
        break;
    }
    case I_GEP: {
        const Val b = get(in.o[0]);
        bool con = !b.e;
        for (size_t i = 1; i < in.o.size() && con; i++) if (get(in.o[i]).e) con = false;
        if (con) {
            u64 r = b.c + in.base;
            for (size_t i = 1; i < in.o.size(); i++) r += (u64)(i64)sx(get(in.o[i]).c, in.gw[i - 1]) * in.scale[i - 1];
            setDst(in, kv(r));
        } else {
            Expr *r = bin(ADD, E(b, 64), K(in.base, 64));
            for (size_t i = 1; i < in.o.size(); i++) {
                Expr *x = sext(E(get(in.o[i]), in.gw[i - 1]), 64);
                r = bin(ADD, r, bin(MUL, x, K(in.scale[i - 1], 64)));
            }
            setDst(in, V(r));
        }
        break;
    }
    case I_PHI: {
        // all phis of the block read their inputs before any is written
        Frame &f = top();
        std::vector<Inst> &is = f.fn->b[f.bb].in;
        std::vector<std::pair<int, Val>> vals;
        size_t i = f.ip;
        for (; i < is.size() && is[i].op == I_PHI; i++) {
            Inst &ph = is[i];
            size_t k = 0;
            while (k < ph.idx.size() && ph.idx[k] != f.prev) k++;
            if (k == ph.idx.size()) unsupported("phi without matching predecessor");
            vals.push_back({ph.dst, get(ph.o[k])});
        }
        for (auto &v : vals) f.r[v.first] = v.second;
        f.ip = i;
        return;
    }
    case I_BR: jump(in.idx[0]); return;
    case I_CONDBR: {
        const Val c = get(in.o[0]);
        bool b = c.e ? branch(c.e) : c.c & 1;
        jump(in.idx[b ? 0 : 1]);
        return;
    }
    case I_SWITCH: {
        const Val v = get(in.o[0]);
        if (!v.e) {
            int t = in.idx[0];
            for (size_t i = 0; i < in.cases.size(); i++) if ((u64)in.cases[i] == v.c) { t = in.idx[i + 1]; break; }
            jump(t);
            return;
        }
        u32 w = in.ty->bits;
        // one condition per distinct target; the target of the current model first
        std::vector<int> targets;
        auto cond = [&](int t) {
            Expr *c = K(0, 1);
            for (size_t i = 0; i < in.cases.size(); i++) if (in.idx[i + 1] == t) c = bin(OR, c, eqE(v.e, K(in.cases[i], w)));
            if (in.idx[0] == t) {
                Expr *d = K(1, 1);
                for (size_t i = 0; i < in.cases.size(); i++) if (in.idx[i + 1] != t) d = bin(AND, d, notE(eqE(v.e, K(in.cases[i], w))));
                c = d;
            }
            return c;
        };
        std::set<int> tried;
        for (;;) {
            u64 m = evalM(v.e);
            int t = in.idx[0];
            for (size_t i = 0; i < in.cases.size(); i++) if ((u64)in.cases[i] == m) { t = in.idx[i + 1]; break; }
            if (branch(cond(t))) { jump(t); return; }
            if (!tried.insert(t).second) unsupported("switch");
        }
    }
    case I_RET: {
        Val v;
        if (!in.o.empty()) v = get(in.o[0]);
        for (u32 i : fp->allocas) { S->heap[i] = ObjRef(); S->freeSlots.push_back(i); }
        S->st.pop_back();
        if (S->st.empty()) return;
        Frame &f = top();
        Inst &ci = f.fn->b[f.bb].in[f.ip];
        if (ci.dst >= 0) f.r[ci.dst] = v;
        done(ci);
        return;
    }
    case I_UNREACHABLE: throw Fail{"unreachable code reached in " + fp->fn->name};
    case I_CALL: call(in); return;
    case I_EXTRACTVALUE: {
        Val v = get(in.o[0]);
        for (int i : in.idx) { if (!v.g) unsupported("extractvalue"); v = v.g->v[i]; }
        setDst(in, v);
        break;
    }
    case I_INSERTVALUE: {
        Val v = get(in.o[0]);
        if (in.idx.size() != 1 || !v.g) unsupported("insertvalue");
        Val r;
        r.g = new Agg(*v.g);
        r.g->v[in.idx[0]] = get(in.o[1]);
        setDst(in, r);
        break;
    }
    case I_EXTRACTELEM: {
        u64 i = conc(get(in.o[1]));
        u32 lw = in.ty->el->bits;
        setDst(in, V(extract(E(get(in.o[0]), in.ty->bits), i * lw, lw)));
        break;
    }
    case I_INSERTELEM: {
        u64 k = conc(get(in.o[2]));
        u32 lw = in.ty->el->bits;
        Expr *v = E(get(in.o[0]), in.ty->bits), *x = E(get(in.o[1]), lw), *r = 0;
        for (u64 i = 0; i < in.ty->n; i++) { Expr *l = i == k ? x : extract(v, i * lw, lw); r = r ? concat(l, r) : l; }
        setDst(in, V(r));
        break;
    }
    case I_SHUFFLE: {
        u32 lw = in.ty->el->bits, n = in.ty->n;
        Expr *a = E(get(in.o[0]), in.ty->bits), *b = E(get(in.o[1]), in.ty->bits), *r = 0;
        for (int k : in.idx) { Expr *l = (u32)k < n ? extract(a, k * lw, lw) : extract(b, (k - n) * lw, lw); r = r ? concat(l, r) : l; }
        setDst(in, V(r));
        break;
    }
    case I_RMW: {
        u64 addr = conc(get(in.o[0])), off;
        u32 w = in.ty->bits;
        Obj *o = wr(addr, tsize(in.ty), off);
        Val old = loadBits(o, off, w);
        Expr *x = E(old, w), *y = E(get(in.o[1]), w), *r;
        switch (in.sub) {
        case 0: r = y; break;
        case 1: r = bin(ADD, x, y); break;
        case 2: r = bin(SUB, x, y); break;
        case 3: r = bin(AND, x, y); break;
        case 5: r = bin(OR, x, y); break;
        case 6: r = bin(XOR, x, y); break;
        default: unsupported("atomicrmw");
        }
        storeBits(o, off, w, V(r));
        setDst(in, old);
        break;
    }
    case I_CMPXCHG: {
        u64 addr = conc(get(in.o[0])), off;
        u32 w = in.ty->bits;
        Obj *o = rd(addr, tsize(in.ty), off);
        Val old = loadBits(o, off, w);
        bool same = branch(eqE(E(old, w), E(get(in.o[1]), w)));
        if (same) { o = wr(addr, tsize(in.ty), off); storeBits(o, off, w, get(in.o[2])); }
        setDst(in, pairV(old, kv(same)));
        break;
    }
    case I_FENCE: break;
    case I_LANDINGPAD: throw Fail{"unwinding"};
    default: unsupported("instruction " + in.name);
    }
    advance();
}

static std::string js(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

int main(int argc, char **argv) {
    t0 = now();
    if (argc < 3) return 3;
    std::string entry = argv[2];
    for (int i = 3; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--time") timeLimit = atof(argv[++i]);
        else if (a == "--steps") stepLimit = strtoull(argv[++i], 0, 10);
        else if (a == "--shard") shard = strtoull(argv[++i], 0, 10);
        else if (a == "--shards") shards = strtoull(argv[++i], 0, 10);
        else if (a == "--keep") keepAtMost = strtoull(argv[++i], 0, 10);
        else if (a == "--grace") grace = atof(argv[++i]);
        else if (a == "--max-fail") maxFail = atoi(argv[++i]);
        else if (a == "-v") verbose = true;
    }
    std::string fatal;
    double tload = 0;
    try {
        loadModule(argv[1]);
        tload = now() - t0;
        Z3_config cfg = Z3_mk_config();
        zc = Z3_mk_context(cfg);
        solver = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
        Z3_solver_inc_ref(zc, solver);
        Z3_params ps = Z3_mk_params(zc);
        Z3_params_inc_ref(zc, ps);
        Z3_params_set_uint(zc, ps, Z3_mk_string_symbol(zc, "timeout"), (unsigned)std::min(4e9, timeLimit * 1000));
        Z3_params_set_uint(zc, ps, Z3_mk_string_symbol(zc, "random_seed"), 1);
        Z3_solver_set_params(zc, solver, ps);
        Function *f = fnByName(entry);
        if (!f || !f->from) unsupported("no function " + entry);
        S = new State;
        S->shardLeft = shards;
        S->shardRest = shard;
        S->model = std::make_shared<Model>();
        std::vector<Val> none;
        pushFrame(f, none, 0);
        work.push_back(S);
        while (!work.empty() && (int)failures.size() < maxFail) {
            S = work.back();
            work.pop_back();
            activate(S);
            stampOwner = 0;
            try {
                while (!S->st.empty()) {
                    step();
                    totalSteps++;
                    if (++S->steps > stepLimit) throw Fail{"does not end within the step limit"};
                    if ((totalSteps & 0xfff) == 0 && now() - t0 > timeLimit) throw Unsupported{"time limit"};
                }
                paths++;
                sample();
            } catch (PathEnd &) {
            } catch (Fail &x) {
                paths++;
                report(x.msg);
                timeLimit = std::min(timeLimit, now() - t0 + grace);
                if (verbose) fprintf(stderr, "FAIL %s in %s\n", x.msg.c_str(), where().c_str());
            } catch (Unsupported &u) {
                incomplete[u.what]++;
                if (verbose) fprintf(stderr, "INCOMPLETE %s in %s\n", u.what.c_str(), where().c_str());
                if (u.what == "time limit") { delete S; S = 0; break; }
            }
            delete S;
            S = 0;
        }
    } catch (Unsupported &u) { fatal = u.what; }
    if (!fatal.empty()) incomplete[fatal]++;
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    printf("{\"entry\":%s,\"paths\":%llu,\"infeasible\":%llu,\"forks\":%llu,\"steps\":%llu,\"queries\":%llu,\"sat\":%llu,\"cached\":%llu,\"tabled\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"load_s\":%.3f,\"pending\":%zu,\"mem_mb\":%ld,\"terms\":%u",
           js(entry).c_str(), (unsigned long long)paths, (unsigned long long)dead, (unsigned long long)forks, (unsigned long long)totalSteps, (unsigned long long)queries, (unsigned long long)satQ, (unsigned long long)cacheHits, (unsigned long long)tabled, solverTime, now() - t0, tload, work.size(), ru.ru_maxrss / 1024, nexprs);
    printf(",\"failures\":[");
    for (size_t i = 0; i < failures.size(); i++) {
        printf("%s{\"msg\":%s,\"draws\":[", i ? "," : "", js(failures[i].msg).c_str());
        for (size_t k = 0; k < failures[i].draws.size(); k++) printf("%s%llu", k ? "," : "", (unsigned long long)failures[i].draws[k]);
        printf("]}");
    }
    printf("],\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) {
        printf("%s[", i ? "," : "");
        for (size_t k = 0; k < samples[i].size(); k++) printf("%s%llu", k ? "," : "", (unsigned long long)samples[i][k]);
        printf("]");
    }
    printf("],\"incomplete\":[");
    bool fst = true;
    for (auto &x : incomplete) { printf("%s{\"why\":%s,\"n\":%llu}", fst ? "" : ",", js(x.first).c_str(), (unsigned long long)x.second); fst = false; }
    printf("],\"witnesses\":[");
    fst = true;
    for (auto &x : witnesses) { printf("%s%s", fst ? "" : ",", js(x).c_str()); fst = false; }
    printf("],\"functions\":[");
    fst = true;
    for (Function *x : executed) { printf("%s%s", fst ? "" : ",", js(x->name).c_str()); fst = false; }
    printf("]}\n");
    return 0;
}
