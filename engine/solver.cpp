#include "solver.h"

#include <z3.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>

namespace {
struct CacheEntry {
    std::vector<uint32_t> key;
    Sat res;
    std::vector<std::pair<uint32_t, uint64_t>> model;
};
}

struct Solver::Impl {
    Z3_context ctx;
    Z3_solver solver = nullptr;
    Z3_sort sorts[65] = {};
    unsigned timeout;
    unsigned sinceReset = 0;
    std::vector<Z3_ast> memo;
    std::unordered_map<uint64_t, std::vector<CacheEntry>> cache;
    std::deque<Model> recent;

    explicit Impl(unsigned t) : timeout(t) { init(); }
    void init() {
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
            fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
            abort();
        });
        newSolver();
    }
    void newSolver() {
        if (solver) Z3_solver_dec_ref(ctx, solver);
        const char *mode = getenv("WSYM_Z3");
        if (!mode || !*mode) solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        else {
            Z3_tactic t = nullptr;
            std::string list = mode;
            for (size_t i = 0; i < list.size();) {
                size_t j = list.find(',', i);
                if (j == std::string::npos) j = list.size();
                Z3_tactic u = Z3_mk_tactic(ctx, list.substr(i, j - i).c_str());
                Z3_tactic_inc_ref(ctx, u);
                if (t) { t = Z3_tactic_and_then(ctx, t, u); Z3_tactic_inc_ref(ctx, t); } else t = u;
                i = j + 1;
            }
            solver = Z3_mk_solver_from_tactic(ctx, t);
        }
        Z3_solver_inc_ref(ctx, solver);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout);
        Z3_solver_set_params(ctx, solver, p);
        Z3_params_dec_ref(ctx, p);
        sinceReset = 0;
    }
    Z3_sort sort(unsigned w) {
        if (!sorts[w]) {
            sorts[w] = Z3_mk_bv_sort(ctx, w);
            Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, sorts[w]));
        }
        return sorts[w];
    }
    Z3_ast one() { return Z3_mk_unsigned_int64(ctx, 1, sort(1)); }
    Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, one(), Z3_mk_unsigned_int64(ctx, 0, sort(1))); }
    Z3_ast asBool(E e) {
        // Direct boolean translation of width-1 terms.
        if (isC(e)) return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        switch (e->op) {
        case Op::Eq: if (e->k[0]->width > 1) return Z3_mk_eq(ctx, tr(e->k[0]), tr(e->k[1])); break;
        case Op::Ult: return Z3_mk_bvult(ctx, tr(e->k[0]), tr(e->k[1]));
        case Op::Ule: return Z3_mk_bvule(ctx, tr(e->k[0]), tr(e->k[1]));
        case Op::Slt: return Z3_mk_bvslt(ctx, tr(e->k[0]), tr(e->k[1]));
        case Op::Sle: return Z3_mk_bvsle(ctx, tr(e->k[0]), tr(e->k[1]));
        case Op::Xor:
            if (isC(e->k[1]) && e->k[1]->c == 1) return Z3_mk_not(ctx, asBool(e->k[0]));
            break;
        default: break;
        }
        return Z3_mk_eq(ctx, tr(e), one());
    }
    // Iterative post-order translation (deep ite chains would overflow a recursion).
    Z3_ast tr(E root) {
        if (memo.size() < numExprs()) memo.resize(numExprs() + 1024, nullptr);
        if (memo[root->id]) return memo[root->id];
        std::vector<E> st{root};
        while (!st.empty()) {
            E e = st.back();
            if (memo[e->id]) { st.pop_back(); continue; }
            bool ready = true;
            for (int i = 0; i < e->nk; ++i)
                if (!memo[e->k[i]->id]) { st.push_back(e->k[i]); ready = false; }
            if (!ready) continue;
            st.pop_back();
            Z3_ast a = e->nk > 0 ? memo[e->k[0]->id] : nullptr, b = e->nk > 1 ? memo[e->k[1]->id] : nullptr, r = nullptr;
            switch (e->op) {
            case Op::Const: r = Z3_mk_unsigned_int64(ctx, e->c, sort(e->width)); break;
            case Op::Var: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), sort(e->width)); break;
            case Op::Add: r = Z3_mk_bvadd(ctx, a, b); break;
            case Op::Sub: r = Z3_mk_bvsub(ctx, a, b); break;
            case Op::Mul: r = Z3_mk_bvmul(ctx, a, b); break;
            case Op::UDiv: r = Z3_mk_bvudiv(ctx, a, b); break;
            case Op::SDiv: r = Z3_mk_bvsdiv(ctx, a, b); break;
            case Op::URem: r = Z3_mk_bvurem(ctx, a, b); break;
            case Op::SRem: r = Z3_mk_bvsrem(ctx, a, b); break;
            case Op::And: r = Z3_mk_bvand(ctx, a, b); break;
            case Op::Or: r = Z3_mk_bvor(ctx, a, b); break;
            case Op::Xor: r = Z3_mk_bvxor(ctx, a, b); break;
            case Op::Shl: r = Z3_mk_bvshl(ctx, a, b); break;
            case Op::LShr: r = Z3_mk_bvlshr(ctx, a, b); break;
            case Op::AShr: r = Z3_mk_bvashr(ctx, a, b); break;
            case Op::Eq: r = b2v(Z3_mk_eq(ctx, a, b)); break;
            case Op::Ult: r = b2v(Z3_mk_bvult(ctx, a, b)); break;
            case Op::Ule: r = b2v(Z3_mk_bvule(ctx, a, b)); break;
            case Op::Slt: r = b2v(Z3_mk_bvslt(ctx, a, b)); break;
            case Op::Sle: r = b2v(Z3_mk_bvsle(ctx, a, b)); break;
            case Op::Ite: r = Z3_mk_ite(ctx, asBool(e->k[0]), b, memo[e->k[2]->id]); break;
            case Op::Concat: r = Z3_mk_concat(ctx, a, b); break;
            case Op::Extract: r = Z3_mk_extract(ctx, e->c + e->width - 1, e->c, a); break;
            case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->width - e->k[0]->width, a); break;
            case Op::SExt: r = Z3_mk_sign_ext(ctx, e->width - e->k[0]->width, a); break;
            }
            Z3_inc_ref(ctx, r);
            memo[e->id] = r;
        }
        return memo[root->id];
    }
};

Solver::Solver(unsigned timeoutMs) : m(new Impl(timeoutMs)) {}
Solver::~Solver() {}

Sat Solver::check(const std::vector<E> &constraints, E extra, const Model &base, Model *out) {
    ++stats.queries;
    if (isC(extra)) {
        if (extra->c && out) *out = base;
        ++stats.cacheHits;
        return extra->c ? Sat::Sat : Sat::Unsat;
    }
    // Slice: constraints transitively sharing variables with `extra`.
    std::vector<E> slice;
    std::vector<char> in(numVars(), 0);
    for (uint32_t v : extra->vars->v) in[v] = 1;
    {
        std::vector<char> taken(constraints.size(), 0);
        bool changed = true;
        while (changed) {
            changed = false;
            for (size_t i = 0; i < constraints.size(); ++i) {
                if (taken[i]) continue;
                E c = constraints[i];
                bool hit = false;
                for (uint32_t v : c->vars->v)
                    if (in[v]) { hit = true; break; }
                if (!hit) continue;
                taken[i] = 1;
                for (uint32_t v : c->vars->v)
                    if (!in[v]) { in[v] = 1; changed = true; }
            }
        }
        for (size_t i = 0; i < constraints.size(); ++i)
            if (taken[i]) slice.push_back(constraints[i]);
    }
    slice.push_back(extra);
    std::vector<uint32_t> key;
    for (E c : slice) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    uint64_t h = key.size();
    for (uint32_t x : key) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;

    auto merge = [&](const std::vector<std::pair<uint32_t, uint64_t>> &mv) {
        if (!out) return;
        Model r = base;
        if (r.size() < numVars()) r.resize(numVars(), 0);
        for (auto &p : mv) r[p.first] = p.second;
        *out = std::move(r);
    };
    for (auto &ce : m->cache[h]) {
        if (ce.key == key) {
            ++stats.cacheHits;
            if (ce.res == Sat::Sat) merge(ce.model);
            return ce.res;
        }
    }
    std::vector<uint32_t> svars;
    for (size_t v = 0; v < in.size(); ++v)
        if (in[v]) svars.push_back(v);
    auto remember = [&](Sat r, std::vector<std::pair<uint32_t, uint64_t>> mv) {
        m->cache[h].push_back(CacheEntry{key, r, std::move(mv)});
    };
    // Recent models.
    for (auto it = m->recent.rbegin(); it != m->recent.rend(); ++it) {
        if (!evalExpr(extra, *it)) continue;
        bool ok = true;
        for (E c : slice)
            if (!evalExpr(c, *it)) { ok = false; break; }
        if (ok) {
            ++stats.cacheHits;
            std::vector<std::pair<uint32_t, uint64_t>> mv;
            for (uint32_t v : svars) mv.push_back({v, v < it->size() ? (*it)[v] : 0});
            merge(mv);
            remember(Sat::Sat, std::move(mv));
            return Sat::Sat;
        }
    }
    ++stats.z3Queries;
    auto t0 = std::chrono::steady_clock::now();
    if (++m->sinceReset > 2000) m->newSolver();
    Z3_context ctx = m->ctx;
    Z3_solver s = m->solver;
    Z3_solver_push(ctx, s);
    for (E c : slice) Z3_solver_assert(ctx, s, m->asBool(c));
    Z3_lbool r = Z3_solver_check(ctx, s);
    Sat res = Sat::Unknown;
    std::vector<std::pair<uint32_t, uint64_t>> mv;
    if (r == Z3_L_TRUE) {
        res = Sat::Sat;
        Z3_model zm = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, zm);
        for (uint32_t v : svars) {
            Z3_ast var = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), m->sort(varWidth(v)));
            Z3_inc_ref(ctx, var);
            Z3_ast val = nullptr;
            uint64_t x = 0;
            if (Z3_model_eval(ctx, zm, var, true, &val) && val) {
                Z3_inc_ref(ctx, val);
                Z3_get_numeral_uint64(ctx, val, &x);
                Z3_dec_ref(ctx, val);
            }
            Z3_dec_ref(ctx, var);
            mv.push_back({v, x});
        }
        Z3_model_dec_ref(ctx, zm);
        ++stats.sat;
    } else if (r == Z3_L_FALSE) {
        res = Sat::Unsat;
        ++stats.unsat;
    } else {
        ++stats.unknown;
    }
    Z3_solver_pop(ctx, s, 1);
    stats.z3Seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (getenv("WSYM_SLOW")) {
        double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (d > atof(getenv("WSYM_SLOW"))) { fprintf(stderr, "slow %.2f s res %d\n", d, (int)r); for (E c : slice) fprintf(stderr, "   %s\n", exprStr(c).c_str()); }
    }
    if (res == Sat::Sat) {
        Model full(numVars(), 0);
        for (auto &p : mv) full[p.first] = p.second;
        // The model must satisfy every constraint under our own evaluator: checks the translation.
        for (E c : slice) {
            if (!evalExpr(c, full)) {
                fprintf(stderr, "internal error: Z3 model does not satisfy %s\n", exprStr(c).c_str());
                abort();
            }
        }
        m->recent.push_back(std::move(full));
        if (m->recent.size() > 24) m->recent.pop_front();
        merge(mv);
    }
    if (res != Sat::Unknown) remember(res, std::move(mv));
    return res;
}
