// Path constraints, byte domains and the SMT back end (z3, QF_BV).
#pragma once
#include "expr.h"
#include <z3.h>
#include <unistd.h>
#include <chrono>
#include <map>

static inline double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct DomTab
{
    struct H { size_t operator()(const Dom &d) const { return std::hash<Dom>()(d); } };
    std::unordered_map<Dom, uint32_t, H> ix;
    std::vector<Dom> tab;
    DomTab() { Dom f; f.set(); get(f); }
    uint32_t get(const Dom &d) { auto it = ix.find(d); if(it != ix.end()) return it->second; uint32_t n = tab.size(); tab.push_back(d); ix[d] = n; return n; }
};

struct PathCond
{
    std::vector<E> multi;          // constraints over several byte variables
    std::vector<uint32_t> doms;    // per variable: interned domain (0 = full)
    std::vector<uint8_t> model;    // satisfies every constraint
};

enum SatR { SAT, UNSAT, UNKNOWN };

struct SolverStats { uint64_t branchQueries = 0, checkQueries = 0, fast = 0, cacheHits = 0, z3 = 0, z3sat = 0, z3unsat = 0, z3unknown = 0, tried = 0; double z3time = 0, z3max = 0; };

struct Solver
{
    ExprCtx &X;
    DomTab dt;
    Z3_context ctx = nullptr;
    Z3_solver sol = nullptr, solFp = nullptr;    // the second one for queries with floating point arithmetic
    std::vector<Z3_ast> memo;
    SolverStats st;
    unsigned timeoutMs = 20000;
    std::string dumpDir;
    uint64_t dumpN = 0;
    struct CacheEnt { SatR r; std::vector<std::pair<uint32_t, uint8_t>> m; };
    std::unordered_map<std::string, CacheEnt> cache;

    Solver(ExprCtx &x) : X(x) {}
    void init()
    {
        if(ctx) return;
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        mkSolver();
    }
    void mkSolver()
    {
        sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, sol);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
        Z3_solver_set_params(ctx, sol, p);
        solFp = Z3_mk_solver(ctx);
        Z3_solver_inc_ref(ctx, solFp);
        Z3_solver_set_params(ctx, solFp, p);
    }
    Z3_ast bvc(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v & maskw(w), Z3_mk_bv_sort(ctx, w)); }
    Z3_ast one1() { return bvc(1, 1); }
    // width-1 expressions are lowered to Bool when isBool, otherwise to (_ BitVec 1)
    Z3_ast toBV(E e)
    {
        Z3_ast a = low(e);
        if(e->w == 1 && isBoolOp(e)) return Z3_mk_ite(ctx, a, bvc(1, 1), bvc(0, 1));
        return a;
    }
    Z3_ast toBool(E e)
    {
        Z3_ast a = low(e);
        if(isBoolOp(e)) return a;
        return Z3_mk_eq(ctx, a, bvc(1, 1));
    }
    static bool isBoolOp(E e) { return e->w == 1 && (e->op == EQ || e->op == ULT || e->op == SLT || e->op == AND1 || e->op == OR1 || e->op == NOT1 || e->op == XOR1); }
    Z3_ast low(E e)
    {
        if(memo.size() <= e->id) memo.resize(e->id + 1024, nullptr);
        if(memo[e->id]) return memo[e->id];
        Z3_ast r = nullptr; unsigned w = e->w;
        switch(e->op)
        {
            case CONST: r = bvc(e->val, w); break;
            case VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->val), Z3_mk_bv_sort(ctx, 8)); break;
            case SUM:
            {
                r = e->val ? bvc(e->val, w) : nullptr;
                for(size_t i = 0; i < e->k.size(); i++)
                {
                    Z3_ast t = toBV(e->k[i]); bool neg = e->c[i] == maskw(w);
                    if(!neg && e->c[i] != 1) t = Z3_mk_bvmul(ctx, bvc(e->c[i], w), t);
                    if(!r) r = neg ? Z3_mk_bvneg(ctx, t) : t; else r = neg ? Z3_mk_bvsub(ctx, r, t) : Z3_mk_bvadd(ctx, r, t);
                }
                break;
            }
            case MUL: r = Z3_mk_bvmul(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case UDIV: r = Z3_mk_bvudiv(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case SDIV: r = Z3_mk_bvsdiv(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case UREM: r = Z3_mk_bvurem(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case SREM: r = Z3_mk_bvsrem(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case ANF:
                for(size_t i = 0; i < e->c.size(); i += 2)
                {
                    Z3_ast t = nullptr;
                    if(e->c[i + 1] != maskw(w) || e->c[i] == 0) t = bvc(e->c[i + 1], w);
                    for(size_t b = 0; b < e->k.size(); b++) if(e->c[i] >> b & 1) { Z3_ast x = toBV(e->k[b]); t = t ? Z3_mk_bvand(ctx, t, x) : x; }
                    r = r ? Z3_mk_bvxor(ctx, r, t) : t;
                }
                break;
            case SHL: r = Z3_mk_bvshl(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case LSHR: r = Z3_mk_bvlshr(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case ASHR: r = Z3_mk_bvashr(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case EQ: r = Z3_mk_eq(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case ULT: r = Z3_mk_bvult(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case SLT: r = Z3_mk_bvslt(ctx, toBV(e->k[0]), toBV(e->k[1])); break;
            case CONCAT: for(auto x : e->k) { Z3_ast t = toBV(x); r = r ? Z3_mk_concat(ctx, t, r) : t; } break;
            case EXTRACT: r = Z3_mk_extract(ctx, e->val + w - 1, e->val, toBV(e->k[0])); break;
            case SEXT: r = Z3_mk_sign_ext(ctx, w - e->k[0]->w, toBV(e->k[0])); break;
            case ITE: r = Z3_mk_ite(ctx, toBool(e->k[0]), toBV(e->k[1]), toBV(e->k[2])); break;
            case AND1: { Z3_ast v[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(ctx, 2, v); break; }
            case OR1: { Z3_ast v[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(ctx, 2, v); break; }
            case NOT1: r = Z3_mk_not(ctx, toBool(e->k[0])); break;
            case XOR1: r = Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1])); break;
            case FP: r = lowFp(e); break;
        }
        if(memo.size() <= e->id) memo.resize(e->id + 1024, nullptr);
        memo[e->id] = r;
        return r;
    }
    Z3_sort fpSort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); }
    Z3_ast asFp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, toBV(e), fpSort(e->w)); }
    Z3_ast lowFp(E e)
    {
        unsigned w = e->w, sw = e->val >> 8, op = e->val & 0xff;
        Z3_ast rne = Z3_mk_fpa_rne(ctx), f;
        if(op == FTOSI || op == FTOUI)
        {
            Z3_ast x = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), asFp(e->k[0])); Z3_sort so = fpSort(sw);
            Z3_ast lo = Z3_mk_fpa_numeral_double(ctx, op == FTOSI ? -__builtin_ldexp(1, w - 1) : 0, so), hi = Z3_mk_fpa_numeral_double(ctx, __builtin_ldexp(1, op == FTOSI ? w - 1 : w), so);
            Z3_ast in[2] = {Z3_mk_fpa_geq(ctx, x, lo), Z3_mk_fpa_lt(ctx, x, hi)};
            Z3_ast c = op == FTOSI ? Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, w) : Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), x, w);
            return Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in), c, bvc(1ull << (w - 1), w));
        }
        switch(op)
        {
            case FADD: f = Z3_mk_fpa_add(ctx, rne, asFp(e->k[0]), asFp(e->k[1])); break;
            case FSUB: f = Z3_mk_fpa_sub(ctx, rne, asFp(e->k[0]), asFp(e->k[1])); break;
            case FMUL: f = Z3_mk_fpa_mul(ctx, rne, asFp(e->k[0]), asFp(e->k[1])); break;
            case FDIV: f = Z3_mk_fpa_div(ctx, rne, asFp(e->k[0]), asFp(e->k[1])); break;
            case FEXT: case FTRUNC: f = Z3_mk_fpa_to_fp_float(ctx, rne, asFp(e->k[0]), fpSort(w)); break;
            case SITOF: f = Z3_mk_fpa_to_fp_signed(ctx, rne, toBV(e->k[0]), fpSort(w)); break;
            default: f = Z3_mk_fpa_to_fp_unsigned(ctx, rne, toBV(e->k[0]), fpSort(w)); break;
        }
        return Z3_mk_ite(ctx, Z3_mk_fpa_is_nan(ctx, f), bvc(1ull << (w - 1) | ExprCtx::fpExp(w) | ExprCtx::fpQuiet(w), w), Z3_mk_fpa_to_ieee_bv(ctx, f));
    }
    Z3_ast domAst(uint32_t v, const Dom &d)
    {
        Z3_ast x = low(X.varExpr[v]);
        std::vector<Z3_ast> parts;
        for(int i = 0; i < 256;)
        {
            if(!d[i]) { i++; continue; }
            int j = i; while(j < 256 && d[j]) j++;
            if(j - i == 1) parts.push_back(Z3_mk_eq(ctx, x, bvc(i, 8)));
            else { Z3_ast c[2] = {Z3_mk_bvuge(ctx, x, bvc(i, 8)), Z3_mk_bvule(ctx, x, bvc(j - 1, 8))}; parts.push_back(Z3_mk_and(ctx, 2, c)); }
            i = j;
        }
        if(parts.empty()) return Z3_mk_false(ctx);
        return parts.size() == 1 ? parts[0] : Z3_mk_or(ctx, parts.size(), parts.data());
    }

    uint32_t domOfVar(const PathCond &p, uint32_t v) { return v < p.doms.size() ? p.doms[v] : 0; }

    // is (path && cond) satisfiable? On SAT, m receives a full model.
    SatR mayBeTrue(const PathCond &p, E cond, std::vector<uint8_t> &m)
    {
        if(cond->op == CONST) { if(cond->val) { m = p.model; return SAT; } return UNSAT; }
        X.setModel(p.model);
        if(X.ev(cond)) { m = p.model; st.fast++; return SAT; }
        // slice
        static std::vector<char> mark;
        mark.assign(X.vars.size() + 1, 0);
        std::vector<uint32_t> vs(*cond->vars);
        for(auto v : vs) mark[v] = 1;
        std::vector<E> cs; std::vector<char> used(p.multi.size(), 0);
        bool again = true;
        while(again)
        {
            again = false;
            for(size_t i = 0; i < p.multi.size(); i++) if(!used[i])
            {
                bool hit = false;
                for(auto v : *p.multi[i]->vars) if(mark[v]) { hit = true; break; }
                if(!hit) continue;
                used[i] = 1; cs.push_back(p.multi[i]);
                for(auto v : *p.multi[i]->vars) if(!mark[v]) { mark[v] = 1; vs.push_back(v); again = true; }
            }
        }
        if(cond->vars->size() == 1)
        {
            uint32_t v = vs[0];
            Dom d = X.domOf(cond) & dt.tab[domOfVar(p, v)];
            if(d.none()) { st.fast++; return UNSAT; }
            m = p.model; if(m.size() <= v) m.resize(v + 1);
            if(cs.empty()) { m[v] = d._Find_first(); st.fast++; return SAT; }
            int tries = 0;
            for(size_t i = d._Find_first(); i < 256 && tries < 24; i = d._Find_next(i), tries++)
            {
                m[v] = i; X.setModel(m); bool ok = true;
                for(auto c : cs) if(!X.ev(c)) { ok = false; break; }
                if(ok) { st.tried++; return SAT; }
            }
        }
        else
        {
            // change one byte at a time around the current model
            m = p.model; int budget = 300;
            for(auto v : *cond->vars)
            {
                if(budget <= 0) break;
                if(m.size() <= v) m.resize(v + 1);
                uint8_t old = m[v];
                const Dom &d = dt.tab[domOfVar(p, v)];
                static const uint8_t cand[] = {0, 1, 255, 0x7f, 0x80, '0', 'A', 'a', ' ', '\r', '\n', '/'};
                for(uint8_t c : cand)
                {
                    if(!d[c] || c == old) continue;
                    budget--;
                    m[v] = c; X.setModel(m);
                    if(!X.ev(cond)) continue;
                    bool ok = true;
                    for(auto q : cs) if(!X.ev(q)) { ok = false; break; }
                    if(ok) { st.tried++; return SAT; }
                }
                m[v] = old;
            }
        }
        std::vector<uint32_t> ids; for(auto c : cs) ids.push_back(c->id);
        std::sort(ids.begin(), ids.end());
        std::sort(vs.begin(), vs.end());
        std::string key((char*)&cond->id, 4);
        key.append((char*)ids.data(), ids.size() * 4);
        for(auto v : vs) { uint32_t d = domOfVar(p, v); if(d) { key.append((char*)&v, 4); key.append((char*)&d, 4); } }
        auto it = cache.find(key);
        if(it != cache.end())
        {
            st.cacheHits++;
            if(it->second.r == SAT) { m = p.model; for(auto &x : it->second.m) { if(m.size() <= x.first) m.resize(x.first + 1); m[x.first] = x.second; } }
            return it->second.r;
        }
        CacheEnt ent; ent.r = z3solve(p, cs, cond, vs, ent.m);
        if(ent.r == SAT) { m = p.model; for(auto &x : ent.m) { if(m.size() <= x.first) m.resize(x.first + 1); m[x.first] = x.second; } }
        if(cache.size() > 400000) cache.clear();
        cache[key] = ent;
        return ent.r;
    }
    SatR z3solve(const PathCond &p, const std::vector<E> &cs, E cond, const std::vector<uint32_t> &vs, std::vector<std::pair<uint32_t, uint8_t>> &out)
    {
        init();
        double t0 = nowS();
        bool fp = cond->fp; for(auto c : cs) fp |= c->fp;
        Z3_solver sol = fp ? solFp : this->sol; bool dump = !dumpDir.empty() && !fp;
        Z3_solver_reset(ctx, sol);
        for(auto v : vs) { uint32_t d = domOfVar(p, v); if(d) Z3_solver_assert(ctx, sol, domAst(v, dt.tab[d])); }
        for(auto c : cs) Z3_solver_assert(ctx, sol, toBool(c));
        Z3_solver_assert(ctx, sol, toBool(cond));
        if(dump && dumpN < 400)
        {
            std::string f = dumpDir + "/q" + std::to_string((long)getpid()) + "_" + std::to_string(dumpN++) + ".smt2";
            FILE *fp = fopen(f.c_str(), "w");
            fprintf(fp, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, sol)); fclose(fp);
        }
        Z3_lbool r = Z3_solver_check(ctx, sol);
        st.z3++;
        SatR res = UNKNOWN;
        if(r == Z3_L_TRUE)
        {
            Z3_model m = Z3_solver_get_model(ctx, sol);
            Z3_model_inc_ref(ctx, m);
            for(auto v : vs)
            {
                Z3_ast a; uint64_t val = 0;
                if(Z3_model_eval(ctx, m, low(X.varExpr[v]), true, &a)) Z3_get_numeral_uint64(ctx, a, &val);
                out.push_back({v, (uint8_t)val});
            }
            Z3_model_dec_ref(ctx, m);
            st.z3sat++; res = SAT;
        }
        else if(r == Z3_L_FALSE) { st.z3unsat++; res = UNSAT; }
        else { st.z3unknown++; if(getenv("FRV_SLOW")) fprintf(stderr, "UNKNOWN %s vars=%zu cs=%zu\n%s\n", Z3_solver_get_reason_unknown(ctx, sol), vs.size(), cs.size(), Z3_solver_to_string(ctx, sol)); }
        if(dump && dumpN <= 400)
        {
            std::string f = dumpDir + "/q" + std::to_string((long)getpid()) + "_" + std::to_string(dumpN - 1) + ".res";
            FILE *fp = fopen(f.c_str(), "w"); fprintf(fp, "%s\n", res == SAT ? "sat" : res == UNSAT ? "unsat" : "unknown"); fclose(fp);
        }
        double dtm = nowS() - t0; if(dtm > 2 && getenv("FRV_SLOW")) fprintf(stderr, "SLOW %.1f res=%d vars=%zu cs=%zu\n%s\n", dtm, (int)res, vs.size(), cs.size(), Z3_solver_to_string(ctx, sol)); st.z3time += dtm; if(dtm > st.z3max) st.z3max = dtm;
        return res;
    }
    // add a constraint known to be satisfiable together with the path; m satisfies both
    void add(PathCond &p, E c, const std::vector<uint8_t> &m)
    {
        addOnly(p, c);
        p.model = m;
    }
    void addOnly(PathCond &p, E c)
    {
        if(c->op == CONST) return;
        if(c->op == AND1) { addOnly(p, c->k[0]); addOnly(p, c->k[1]); return; }
        if(c->op == NOT1 && c->k[0]->op == OR1) { addOnly(p, X.not1(c->k[0]->k[0])); addOnly(p, X.not1(c->k[0]->k[1])); return; }
        if(c->vars->size() == 1)
        {
            uint32_t v = (*c->vars)[0];
            if(p.doms.size() <= v) p.doms.resize(v + 1, 0);
            p.doms[v] = dt.get(dt.tab[p.doms[v]] & X.domOf(c));
            return;
        }
        for(auto x : p.multi) if(x == c) return;
        p.multi.push_back(c);
    }
};
