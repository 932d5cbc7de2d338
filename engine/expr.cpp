#include "expr.h"

#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <unordered_map>

namespace {

struct KeyHash {
    size_t operator()(E e) const {
        uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull + e->width;
        h = (h ^ e->c) * 0xff51afd7ed558ccdull;
        for (int i = 0; i < e->nk; ++i) {
            h = (h ^ (h >> 29) ^ e->k[i]->id) * 0xc4ceb9fe1a85ec53ull;
        }
        return h ^ (h >> 32);
    }
};

std::deque<Expr> g_pool;
struct Table {
    std::vector<E> slot;
    size_t used = 0;
    Table() : slot(1 << 16, nullptr) {}
    static bool same(E a, E b) {
        return a->op == b->op && a->width == b->width && a->c == b->c && a->nk == b->nk &&
               (a->nk < 1 || a->k[0] == b->k[0]) && (a->nk < 2 || a->k[1] == b->k[1]) &&
               (a->nk < 3 || a->k[2] == b->k[2]);
    }
    void grow() {
        std::vector<E> old;
        old.swap(slot);
        slot.assign(old.size() * 2, nullptr);
        for (E e : old) {
            if (!e) continue;
            size_t i = KeyHash()(e) & (slot.size() - 1);
            while (slot[i]) i = (i + 1) & (slot.size() - 1);
            slot[i] = e;
        }
    }
};
Table &table() { static Table t; return t; }

std::vector<std::string> g_varNames;
std::vector<unsigned> g_varWidths;

struct VecHash {
    size_t operator()(const std::vector<uint32_t> &v) const {
        uint64_t h = v.size();
        for (uint32_t x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 31;
        return h;
    }
};
std::deque<VarSet> g_sets;
std::unordered_map<std::vector<uint32_t>, const VarSet *, VecHash> g_setTable;
std::unordered_map<uint64_t, const VarSet *> g_unionCache;

const VarSet *internSet(std::vector<uint32_t> v) {
    auto it = g_setTable.find(v);
    if (it != g_setTable.end()) return it->second;
    g_sets.push_back(VarSet{(uint32_t)g_sets.size(), v});
    const VarSet *p = &g_sets.back();
    g_setTable[std::move(v)] = p;
    return p;
}
const VarSet *emptySet() { static const VarSet *s = internSet({}); return s; }
const VarSet *unionSet(const VarSet *a, const VarSet *b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (a->id > b->id) std::swap(a, b);
    uint64_t key = ((uint64_t)a->id << 32) | b->id;
    auto it = g_unionCache.find(key);
    if (it != g_unionCache.end()) return it->second;
    std::vector<uint32_t> r;
    r.reserve(a->v.size() + b->v.size());
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    const VarSet *p = internSet(std::move(r));
    g_unionCache[key] = p;
    return p;
}

void setBounds(Expr &e) {
    const uint64_t m = maskOf(e.width);
    e.umin = 0;
    e.umax = m;
    e.zeros = ~m;
    E a = e.nk > 0 ? e.k[0] : nullptr, b = e.nk > 1 ? e.k[1] : nullptr;
    switch (e.op) {
    case Op::Const: e.umin = e.umax = e.c; e.zeros = ~e.c; return;
    case Op::Add:
        if (a->umax <= m - b->umax) { e.umin = a->umin + b->umin; e.umax = a->umax + b->umax; }
        {
            // low bits zero in both stay zero
            uint64_t z = a->zeros & b->zeros;
            unsigned t = ~z ? __builtin_ctzll(~z) : 64;
            if (t > 0) e.zeros |= (t >= 64 ? ~0ull : (1ull << t) - 1);
        }
        break;
    case Op::Sub:
        if (a->umin >= b->umax) { e.umin = a->umin - b->umax; e.umax = a->umax - b->umin; }
        break;
    case Op::Mul:
        if (a->umax == 0 || b->umax <= m / std::max<uint64_t>(a->umax, 1)) {
            e.umin = a->umin * b->umin; e.umax = a->umax * b->umax;
        }
        {
            unsigned ta = ~a->zeros ? __builtin_ctzll(~a->zeros) : 64, tb = ~b->zeros ? __builtin_ctzll(~b->zeros) : 64;
            unsigned t = std::min(64u, ta + tb);
            e.zeros |= (t >= 64 ? ~0ull : (1ull << t) - 1);
        }
        break;
    case Op::UDiv:
        if (b->umin > 0) { e.umin = a->umin / b->umax; e.umax = a->umax / b->umin; }
        break;
    case Op::URem:
        if (b->umin > 0) { e.umax = std::min(a->umax, b->umax - 1); }
        break;
    case Op::And:
        e.zeros |= a->zeros | b->zeros;
        e.umax = std::min(a->umax, b->umax);
        break;
    case Op::Or:
        e.zeros |= a->zeros & b->zeros;
        e.umin = std::max(a->umin, b->umin);
        break;
    case Op::Xor: e.zeros |= a->zeros & b->zeros; break;
    case Op::Shl:
        if (isC(b)) {
            unsigned s = b->c >= e.width ? e.width : b->c;
            e.zeros |= s >= 64 ? ~0ull : ((a->zeros << s) | ((1ull << s) - 1));
            if (s < e.width && a->umax <= (m >> s)) { e.umin = a->umin << s; e.umax = a->umax << s; }
        }
        break;
    case Op::LShr:
        if (isC(b) && b->c < e.width) {
            e.umin = a->umin >> b->c;
            e.umax = a->umax >> b->c;
            e.zeros |= (a->zeros >> b->c) | (b->c ? ~(~0ull >> b->c) : 0);
        } else {
            e.umax = a->umax;
        }
        break;
    case Op::Ite:
        e.umin = std::min(e.k[1]->umin, e.k[2]->umin);
        e.umax = std::max(e.k[1]->umax, e.k[2]->umax);
        e.zeros |= e.k[1]->zeros & e.k[2]->zeros;
        break;
    case Op::Concat:
        e.umin = (a->umin << b->width) | b->umin;
        e.umax = (a->umax << b->width) | b->umax;
        e.zeros = ((a->zeros << b->width) | (b->zeros & maskOf(b->width))) | ~m;
        break;
    case Op::Extract:
        e.zeros |= (a->zeros >> e.c);
        if (e.c == 0 && a->umax <= m) { e.umin = a->umin; e.umax = a->umax; }
        break;
    case Op::ZExt: e.umin = a->umin; e.umax = a->umax; e.zeros |= a->zeros; break;
    case Op::SExt:
        if (a->umax < (1ull << (a->width - 1))) { e.umin = a->umin; e.umax = a->umax; e.zeros |= a->zeros; }
        break;
    default: break;
    }
    // Combine the two domains.
    uint64_t poss = ~e.zeros & m;
    if (poss < e.umax) e.umax = poss;
    if (e.umax != ~0ull) {
        unsigned hb = e.umax ? 64 - __builtin_clzll(e.umax) : 0;
        e.zeros |= hb >= 64 ? 0 : ~((1ull << hb) - 1);
    }
    if (e.umin > e.umax) e.umin = 0; // cannot happen for a satisfiable node
}

E intern(Op op, unsigned w, uint64_t c, std::initializer_list<E> kids) {
    Expr t;
    t.op = op; t.nk = kids.size(); t.width = w; t.c = c; t.id = 0;
    t.k[0] = t.k[1] = t.k[2] = nullptr;
    int i = 0;
    for (E k : kids) t.k[i++] = k;
    Table &tb = table();
    size_t h = KeyHash()(&t) & (tb.slot.size() - 1);
    while (tb.slot[h]) {
        if (Table::same(tb.slot[h], &t)) {
            E f = tb.slot[h];
            return f->op != Op::Const && f->umin == f->umax ? mkConst(f->umin, w) : f;
        }
        h = (h + 1) & (tb.slot.size() - 1);
    }
    t.id = g_pool.size();
    if (op == Op::Var) {
        t.vars = internSet({(uint32_t)c});
    } else {
        const VarSet *s = emptySet();
        for (E k : kids) s = unionSet(s, k->vars);
        t.vars = s;
    }
    setBounds(t);
    g_pool.push_back(t);
    E e = &g_pool.back();
    tb.slot[h] = e;
    if (++tb.used * 2 > tb.slot.size()) tb.grow();
    if (e->op != Op::Const && e->umin == e->umax) return mkConst(e->umin, w);
    return e;
}

} // namespace

E mkConst(uint64_t v, unsigned w) {
    v &= maskOf(w);
    if (v < 256) {
        static E cache[65][256];
        E &e = cache[w][v];
        if (!e) e = intern(Op::Const, w, v, {});
        return e;
    }
    return intern(Op::Const, w, v, {});
}

E mkVar(const std::string &name, unsigned w) {
    uint32_t id = g_varNames.size();
    g_varNames.push_back(name);
    g_varWidths.push_back(w);
    return intern(Op::Var, w, id, {});
}
const std::string &varName(uint32_t id) { return g_varNames[id]; }
unsigned varWidth(uint32_t id) { return g_varWidths[id]; }
uint32_t numVars() { return g_varNames.size(); }
uint32_t numExprs() { return g_pool.size(); }

uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
    const uint64_t m = maskOf(w);
    switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b == 0 ? m : (a / b) & m;
    case Op::URem: return b == 0 ? a : (a % b) & m;
    case Op::SDiv: {
        int64_t x = sextOf(a, w), y = sextOf(b, w);
        if (y == 0) return x < 0 ? 1 : m;
        if (y == -1) return (0 - (uint64_t)x) & m;
        return (uint64_t)(x / y) & m;
    }
    case Op::SRem: {
        int64_t x = sextOf(a, w), y = sextOf(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (uint64_t)(x % y) & m;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return (a ^ b) & m;
    case Op::Shl: return b >= w ? 0 : (a << b) & m;
    case Op::LShr: return b >= w ? 0 : (a & m) >> b;
    case Op::AShr: {
        int64_t x = sextOf(a, w);
        return (uint64_t)(x >> (b >= w ? (w - 1 > 63 ? 63 : w - 1) : b)) & m;
    }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sextOf(a, w) < sextOf(b, w);
    case Op::Sle: return sextOf(a, w) <= sextOf(b, w);
    default: abort();
    }
}

E mkNot(E a) {
    if (isC(a)) return mkConst(~a->c, a->width);
    if (a->width == 1) {
        if (a->op == Op::Xor && isC(a->k[1]) && a->k[1]->c == 1) return a->k[0];
        if (a->op == Op::Ult) return mkBin(Op::Ule, a->k[1], a->k[0]);
        if (a->op == Op::Ule) return mkBin(Op::Ult, a->k[1], a->k[0]);
        if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
        if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
    }
    return mkBin(Op::Xor, a, mkConst(~0ull, a->width));
}

static bool isCmp(Op op) { return op >= Op::Eq && op <= Op::Sle; }
static bool commutes(Op op) {
    return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
}

// True if the Ite has constant leaves (possibly nested), within a small budget.
static bool constLeaves(E e, int &budget) {
    if (isC(e)) return true;
    if (e->op != Op::Ite || --budget < 0) return false;
    return constLeaves(e->k[1], budget) && constLeaves(e->k[2], budget);
}
static E mapLeaves(E e, Op op, E other, bool left) {
    if (isC(e)) return left ? mkBin(op, e, other) : mkBin(op, other, e);
    return mkIte(e->k[0], mapLeaves(e->k[1], op, other, left), mapLeaves(e->k[2], op, other, left));
}

E mkBin(Op op, E a, E b) {
    assert(a->width == b->width);
    const unsigned w = a->width;
    const unsigned rw = isCmp(op) ? 1 : w;
    if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), rw);
    // Constants on the right for commutative operators; otherwise ordered by id.
    if (commutes(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    const uint64_t m = maskOf(w);
    const bool bc = isC(b), ac = isC(a);
    // Operators over an if-then-else of constants: push the operator to the leaves.
    if (bc && a->op == Op::Ite) {
        int budget = 300;
        if (constLeaves(a, budget)) return mapLeaves(a, op, b, true);
    }
    if (ac && b->op == Op::Ite) {
        int budget = 300;
        if (constLeaves(b, budget)) return mapLeaves(b, op, a, false);
    }
    switch (op) {
    case Op::Add:
        if (bc && b->c == 0) return a;
        if (bc && a->op == Op::Add && isC(a->k[1]))
            return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->c + b->c, w));
        if (!bc && a->op == Op::Add && isC(a->k[1]))
            return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
        if (!bc && b->op == Op::Add && isC(b->k[1]))
            return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
        if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
        if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
        break;
    case Op::Sub:
        if (a == b) return mkConst(0, w);
        if (bc) return mkBin(Op::Add, a, mkConst(0 - b->c, w));
        if (a->op == Op::Add) {
            if (a->k[0] == b) return a->k[1];
            if (a->k[1] == b) return a->k[0];
            if (isC(a->k[1])) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
        }
        if (b->op == Op::Add && isC(b->k[1]))
            return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst(0 - b->k[1]->c, w));
        break;
    case Op::Mul:
        if (bc) {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if ((b->c & (b->c - 1)) == 0) return mkBin(Op::Shl, a, mkConst(__builtin_ctzll(b->c), w));
            if (a->op == Op::Mul && isC(a->k[1])) return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->c * b->c, w));
        }
        break;
    case Op::UDiv:
        if (bc && b->c == 1) return a;
        if (bc && b->c && (b->c & (b->c - 1)) == 0) return mkBin(Op::LShr, a, mkConst(__builtin_ctzll(b->c), w));
        if (bc && b->c && a->umax < b->c) return mkConst(0, w);
        break;
    case Op::URem:
        if (bc && b->c == 1) return mkConst(0, w);
        if (bc && b->c && (b->c & (b->c - 1)) == 0) return mkBin(Op::And, a, mkConst(b->c - 1, w));
        if (bc && b->c && a->umax < b->c) return a;
        break;
    case Op::SDiv:
        if (bc && b->c == 1) return a;
        if (bc && (b->c >> (w - 1)) == 0 && b->c && (w < 64 ? a->umax < (1ull << (w - 1)) : (a->umax >> 63) == 0))
            return mkBin(Op::UDiv, a, b);
        break;
    case Op::SRem:
        if (bc && b->c == 1) return mkConst(0, w);
        if (bc && (b->c >> (w - 1)) == 0 && b->c && (w < 64 ? a->umax < (1ull << (w - 1)) : (a->umax >> 63) == 0))
            return mkBin(Op::URem, a, b);
        break;
    case Op::And:
        if (a == b) return a;
        if (bc) {
            if (b->c == 0) return b;
            if ((~a->zeros & m & ~b->c) == 0) return a;
            if ((~a->zeros & b->c) == 0) return mkConst(0, w);
            if (a->op == Op::And && isC(a->k[1])) return mkBin(Op::And, a->k[0], mkConst(a->k[1]->c & b->c, w));
            // low mask -> zext(extract)
            if ((b->c & (b->c + 1)) == 0) {
                unsigned n = 64 - __builtin_clzll(b->c);
                if (n < w) return mkZExt(mkExtract(a, 0, n), w);
            }
        }
        if (w == 1) {
            if (mkNot(a) == b) return mkConst(0, 1);
            if (a->op == Op::And && (a->k[0] == b || a->k[1] == b)) return a;
            if (b->op == Op::And && (b->k[0] == a || b->k[1] == a)) return b;
        }
        break;
    case Op::Or:
        if (a == b) return a;
        if (bc) {
            if (b->c == 0) return a;
            if (b->c == m) return b;
            if (a->op == Op::Or && isC(a->k[1])) return mkBin(Op::Or, a->k[0], mkConst(a->k[1]->c | b->c, w));
        }
        if (w == 1 && mkNot(a) == b) return mkConst(1, 1);
        // Disjoint pieces built with shifts: (zext x) | (y << n) -> concat
        if (!bc && w > 1) {
            for (int i = 0; i < 2; ++i) {
                E lo = i ? b : a, hi = i ? a : b;
                if (hi->op == Op::Shl && isC(hi->k[1])) {
                    unsigned n = hi->k[1]->c;
                    if (n > 0 && n < w && (~lo->zeros & ~maskOf(n)) == 0)
                        return mkConcat(mkExtract(hi->k[0], 0, w - n), mkExtract(lo, 0, n));
                }
            }
        }
        break;
    case Op::Xor:
        if (a == b) return mkConst(0, w);
        if (bc && b->c == 0) return a;
        if (bc && a->op == Op::Xor && isC(a->k[1])) return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
        if (bc && w == 1 && b->c == 1 &&
            (a->op == Op::Ult || a->op == Op::Ule || a->op == Op::Slt || a->op == Op::Sle))
            return mkNot(a);
        break;
    case Op::Shl:
        if (bc) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            if (a->op == Op::Shl && isC(a->k[1])) {
                uint64_t s = a->k[1]->c + b->c;
                return s >= w ? mkConst(0, w) : mkBin(Op::Shl, a->k[0], mkConst(s, w));
            }
        }
        break;
    case Op::LShr:
        if (bc) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            return mkZExt(mkExtract(a, b->c, w - b->c), w);
        }
        break;
    case Op::AShr:
        if (bc) {
            if (b->c == 0) return a;
            unsigned s = b->c >= w ? w - 1 : b->c;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    case Op::Eq:
        if (a == b) return mkConst(1, 1);
        if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1);
        if (bc) {
            if (b->c & a->zeros) return mkConst(0, 1);
            if (w == 1) return b->c ? a : mkNot(a);
            if (a->op == Op::ZExt) return mkBin(Op::Eq, a->k[0], mkConst(b->c, a->k[0]->width));
            if (a->op == Op::SExt) {
                unsigned kw = a->k[0]->width;
                if ((uint64_t)sextOf(b->c, kw) == (uint64_t)sextOf(b->c, w))
                    return mkBin(Op::Eq, a->k[0], mkConst(b->c, kw));
                return mkConst(0, 1);
            }
            if (a->op == Op::Add && isC(a->k[1])) return mkBin(Op::Eq, a->k[0], mkConst(b->c - a->k[1]->c, w));
            if (a->op == Op::Sub) {
                if (b->c == 0) return mkBin(Op::Eq, a->k[0], a->k[1]);
                if (isC(a->k[0])) return mkBin(Op::Eq, a->k[1], mkConst(a->k[0]->c - b->c, w));
            }
            if (a->op == Op::Xor && isC(a->k[1])) return mkBin(Op::Eq, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
            if (a->op == Op::Xor && b->c == 0) return mkBin(Op::Eq, a->k[0], a->k[1]);
            if (a->op == Op::Concat) {
                unsigned lw = a->k[1]->width;
                return mkAnd(mkBin(Op::Eq, a->k[0], mkConst(b->c >> lw, a->k[0]->width)),
                             mkBin(Op::Eq, a->k[1], mkConst(b->c, lw)));
            }
            if (a->op == Op::Shl && isC(a->k[1]) && a->k[1]->c < w) {
                unsigned s = a->k[1]->c;
                if (b->c & maskOf(s)) return mkConst(0, 1);
                return mkBin(Op::Eq, mkExtract(a->k[0], 0, w - s), mkConst(b->c >> s, w - s));
            }
            if (a->op == Op::Ite) {
                if (isC(a->k[1])) {
                    if (a->k[1]->c == b->c) return mkOr(a->k[0], mkBin(Op::Eq, a->k[2], b));
                    return mkAnd(mkNot(a->k[0]), mkBin(Op::Eq, a->k[2], b));
                }
                if (isC(a->k[2])) {
                    if (a->k[2]->c == b->c) return mkOr(mkNot(a->k[0]), mkBin(Op::Eq, a->k[1], b));
                    return mkAnd(a->k[0], mkBin(Op::Eq, a->k[1], b));
                }
            }
        } else {
            if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width)
                return mkBin(Op::Eq, a->k[0], b->k[0]);
            if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width)
                return mkBin(Op::Eq, a->k[0], b->k[0]);
            if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1])
                return mkBin(Op::Eq, a->k[0], b->k[0]);
        }
        break;
    case Op::Ult:
        if (a == b) return mkConst(0, 1);
        if (a->umax < b->umin) return mkConst(1, 1);
        if (a->umin >= b->umax) return mkConst(0, 1);
        if (bc && b->c == 1) return mkBin(Op::Eq, a, mkConst(0, w));
        if (ac && a->c == 0) return mkNot(mkBin(Op::Eq, b, a));
        if (bc && a->op == Op::ZExt && b->c <= maskOf(a->k[0]->width))
            return mkBin(Op::Ult, a->k[0], mkConst(b->c, a->k[0]->width));
        if (ac && b->op == Op::ZExt && a->c <= maskOf(b->k[0]->width))
            return mkBin(Op::Ult, mkConst(a->c, b->k[0]->width), b->k[0]);
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width)
            return mkBin(Op::Ult, a->k[0], b->k[0]);
        break;
    case Op::Ule:
        if (a == b) return mkConst(1, 1);
        if (a->umax <= b->umin) return mkConst(1, 1);
        if (a->umin > b->umax) return mkConst(0, 1);
        if (bc && b->c < m) return mkBin(Op::Ult, a, mkConst(b->c + 1, w));
        if (ac && a->c > 0) return mkBin(Op::Ult, mkConst(a->c - 1, w), b);
        if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width)
            return mkBin(Op::Ule, a->k[0], b->k[0]);
        break;
    case Op::Slt:
    case Op::Sle: {
        if (a == b) return mkConst(op == Op::Sle, 1);
        const uint64_t half = 1ull << (w - 1);
        if (w > 1 && a->umax < half && b->umax < half)
            return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
        if (w > 1 && a->umin >= half && b->umin >= half)
            return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
        if (w > 1 && a->umin >= half && b->umax < half) return mkConst(1, 1);
        if (w > 1 && a->umax < half && b->umin >= half) return mkConst(0, 1);
        if (bc && a->op == Op::SExt) {
            unsigned kw = a->k[0]->width;
            int64_t v = sextOf(b->c, w), lo = -(int64_t)(1ull << (kw - 1)), hi = (int64_t)(1ull << (kw - 1)) - 1;
            if (v > hi) return mkConst(1, 1);
            if (v < lo) return mkConst(0, 1);
            return mkBin(op, a->k[0], mkConst(v, kw));
        }
        if (ac && b->op == Op::SExt) {
            unsigned kw = b->k[0]->width;
            int64_t v = sextOf(a->c, w), lo = -(int64_t)(1ull << (kw - 1)), hi = (int64_t)(1ull << (kw - 1)) - 1;
            if (v > hi) return mkConst(0, 1);
            if (v < lo) return mkConst(1, 1);
            return mkBin(op, mkConst(v, kw), b->k[0]);
        }
        if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width)
            return mkBin(op, a->k[0], b->k[0]);
        break;
    }
    default: break;
    }
    return intern(op, rw, 0, {a, b});
}

E mkIte(E c, E a, E b) {
    assert(c->width == 1 && a->width == b->width);
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->width == 1) {
        if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a == c) return mkOr(c, b);
        if (b == c) return mkAnd(c, a);
    }
    if (c->op == Op::Xor && isC(c->k[1])) return mkIte(c->k[0], b, a);
    if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
    if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (a->op == Op::Ite && a->k[2] == b) return mkIte(mkAnd(c, a->k[0]), a->k[1], b);
    if (b->op == Op::Ite && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    return intern(Op::Ite, a->width, 0, {c, a, b});
}

E mkConcat(E hi, E lo) {
    const unsigned w = hi->width + lo->width;
    assert(w <= 64);
    if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->width) | lo->c, w);
    if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->width)
        return mkExtract(hi->k[0], lo->c, w);
    if (hi->op == Op::Extract && hi->k[0] == lo && hi->c == lo->width) return mkExtract(lo, 0, w);
    if (lo->op == Op::Concat && hi->op == Op::Extract && lo->k[0]->op == Op::Extract &&
        lo->k[0]->k[0] == hi->k[0] && hi->c == lo->k[0]->c + lo->k[0]->width)
        return mkConcat(mkExtract(hi->k[0], lo->k[0]->c, hi->width + lo->k[0]->width), lo->k[1]);
    if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
    // Byte-wise reassembly of an Ite split by bytes.
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0])
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    return intern(Op::Concat, w, 0, {hi, lo});
}

E mkExtract(E a, unsigned lo, unsigned w) {
    assert(lo + w <= a->width && w > 0);
    if (w == a->width) return a;
    if (isC(a)) return mkConst(a->c >> lo, w);
    switch (a->op) {
    case Op::Extract: return mkExtract(a->k[0], a->c + lo, w);
    case Op::Concat: {
        unsigned lw = a->k[1]->width;
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZExt: {
        unsigned kw = a->k[0]->width;
        if (lo >= kw) return mkConst(0, w);
        if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
        return mkZExt(mkExtract(a->k[0], lo, kw - lo), w);
    }
    case Op::SExt: {
        unsigned kw = a->k[0]->width;
        if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
        if (lo < kw) return mkSExt(mkExtract(a->k[0], lo, kw - lo), w);
        return mkSExt(mkExtract(a->k[0], kw - 1, 1), w);
    }
    case Op::Ite: {
        int budget = 300;
        if (constLeaves(a, budget) || a->k[1]->op == Op::Concat || a->k[2]->op == Op::Concat || isC(a->k[1]) || isC(a->k[2]) ||
            a->k[1]->op == Op::ZExt || a->k[2]->op == Op::ZExt || a->k[1]->op == Op::Ite || a->k[2]->op == Op::Ite)
            return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    }
    case Op::And:
    case Op::Or:
    case Op::Xor:
        if (isC(a->k[1]) || lo == 0)
            return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        break;
    case Op::Add:
    case Op::Sub:
    case Op::Mul:
        if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    case Op::Shl:
        if (isC(a->k[1]) && a->k[1]->c < a->width) {
            unsigned s = a->k[1]->c;
            if (lo >= s) return mkExtract(a->k[0], lo - s, w);
            if (lo + w <= s) return mkConst(0, w);
            return mkConcat(mkExtract(a->k[0], 0, lo + w - s), mkConst(0, s - lo));
        }
        break;
    default: break;
    }
    return intern(Op::Extract, w, lo, {a});
}

E mkZExt(E a, unsigned w) {
    assert(w >= a->width);
    if (w == a->width) return a;
    if (isC(a)) return mkConst(a->c, w);
    if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
    if (a->op == Op::Ite) {
        int budget = 300;
        if (constLeaves(a, budget)) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
    }
    return intern(Op::ZExt, w, 0, {a});
}

E mkSExt(E a, unsigned w) {
    assert(w >= a->width);
    if (w == a->width) return a;
    if (isC(a)) return mkConst((uint64_t)sextOf(a->c, a->width), w);
    if (a->umax < (1ull << (a->width - 1))) return mkZExt(a, w);
    if (a->op == Op::SExt) return mkSExt(a->k[0], w);
    if (a->op == Op::Ite) {
        int budget = 300;
        if (constLeaves(a, budget)) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
    }
    return intern(Op::SExt, w, 0, {a});
}

static std::vector<uint64_t> g_memo;
static std::vector<uint32_t> g_memoGen;
static uint32_t g_gen;

static uint64_t evalRec(E e, const Model &m) {
    if (e->op == Op::Const) return e->c;
    if (e->op == Op::Var) return e->c < m.size() ? m[e->c] & maskOf(e->width) : 0;
    if (g_memoGen[e->id] == g_gen) return g_memo[e->id];
    uint64_t r;
    switch (e->op) {
    case Op::Ite: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
    case Op::Concat: r = (evalRec(e->k[0], m) << e->k[1]->width) | evalRec(e->k[1], m); break;
    case Op::Extract: r = (evalRec(e->k[0], m) >> e->c) & maskOf(e->width); break;
    case Op::ZExt: r = evalRec(e->k[0], m); break;
    case Op::SExt: r = (uint64_t)sextOf(evalRec(e->k[0], m), e->k[0]->width) & maskOf(e->width); break;
    default: {
        uint64_t x = evalRec(e->k[0], m);
        if (e->op == Op::And && x == 0) { r = 0; break; }
        r = foldBin(e->op, x, evalRec(e->k[1], m), e->k[0]->width);
    }
    }
    g_memo[e->id] = r;
    g_memoGen[e->id] = g_gen;
    return r;
}

uint64_t evalExpr(E e, const Model &m) {
    if (g_memo.size() < g_pool.size()) {
        g_memo.resize(g_pool.size() * 2);
        g_memoGen.resize(g_pool.size() * 2);
    }
    if (++g_gen == 0) { std::fill(g_memoGen.begin(), g_memoGen.end(), 0); g_gen = 1; }
    return evalRec(e, m);
}

std::string exprStr(E e, int depth) {
    static const char *names[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or",
        "xor", "shl", "lshr", "ashr", "=", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext"};
    if (isC(e)) { char b[40]; snprintf(b, sizeof b, "%llu:%u", (unsigned long long)e->c, e->width); return b; }
    if (e->op == Op::Var) return varName(e->c);
    if (depth == 0) return "...";
    std::string s = std::string("(") + names[(int)e->op];
    if (e->op == Op::Extract) s += "@" + std::to_string(e->c) + "+" + std::to_string(e->width);
    for (int i = 0; i < e->nk; ++i) s += " " + exprStr(e->k[i], depth - 1);
    return s + ")";
}
