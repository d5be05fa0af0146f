// Random cross-check of the expression constructors against direct evaluation and against z3.
#include "solver.h"
#include <random>
#include <emmintrin.h>
static ExprCtx X; static Solver S(X);
int main(int argc, char **argv)
{
    std::mt19937_64 r(argc > 1 ? atoi(argv[1]) : 1); int rounds = argc > 2 ? atoi(argv[2]) : 2000; int bad = 0; long z = 0;
    std::vector<E> v; for(int i = 0; i < 6; i++) v.push_back(X.varExpr[X.varId("v" + std::to_string(i), false)]);
    struct N { E e; std::vector<uint64_t> val; };
    const int K = 12;
    for(int t = 0; t < rounds && !bad; t++)
    {
        std::vector<std::vector<uint8_t>> models(K, std::vector<uint8_t>(6));
        for(auto &m : models) for(auto &b : m) b = (r() % 3) ? r() : (r() % 2 ? 0 : 255);
        std::vector<N> pool;
        for(int i = 0; i < 6; i++) { N n{v[i], {}}; for(auto &m : models) n.val.push_back(m[i]); pool.push_back(n); }
        for(int s = 0; s < 40; s++)
        {
            auto pick = [&](unsigned w) -> N {
                if(r() % 5 == 0) { uint64_t c = r() % 3 ? r() % 300 : r(); if(r() % 3 == 0) c = 1ull << (r() % 64); if(r() % 5 == 0) c = ~0ull << (r() % 64); N n{X.cst(c, w), {}}; for(int i = 0; i < K; i++) n.val.push_back(c & maskw(w)); return n; }
                for(int q = 0; q < 8; q++) { N &n = pool[pool.size() - 1 - r() % std::min<size_t>(pool.size(), 20)]; if(n.e->w == w) return n; }
                N n = pool[r() % pool.size()]; if(n.e->w == w) return n;
                N o; if(n.e->w < w) { bool sg = r() % 2; o.e = sg ? X.sext(n.e, w) : X.zext(n.e, w); for(auto x : n.val) o.val.push_back((sg ? (uint64_t)sx(x, n.e->w) : x) & maskw(w)); }
                else { unsigned lo = r() % (n.e->w - w + 1); if(r() % 2) lo = 0; o.e = X.extract(n.e, lo, w); for(auto x : n.val) o.val.push_back((x >> lo) & maskw(w)); }
                return o; };
            static const unsigned ws[] = {1, 8, 8, 16, 32, 32, 64, 5, 24}; unsigned w = ws[r() % 9];
            N a = pick(w), b = pick(w), c = pick(1), o; int op = r() % 24; unsigned sh = r() % (w + 1);
            if(op == 6 || op == 19) { bool z0 = false; for(auto y : b.val) if(!y) z0 = true; if(z0 || !X.isC(b.e)) op = 7; }
            if(w == 1 && (op >= 3 && op <= 6)) op = 7;
            auto bin = [&](E e, auto f) { o.e = e; for(int i = 0; i < K; i++) o.val.push_back((uint64_t)f(a.val[i], b.val[i]) & maskw(e->w)); };
            switch(op)
            {
                case 0: bin(X.add(a.e, b.e), [](uint64_t x, uint64_t y) { return x + y; }); break;
                case 1: bin(X.sub(a.e, b.e), [](uint64_t x, uint64_t y) { return x - y; }); break;
                case 2: bin(X.mul(a.e, b.e), [](uint64_t x, uint64_t y) { return x * y; }); break;
                case 3: bin(X.shl(a.e, X.cst(sh, w)), [&](uint64_t x, uint64_t) { return sh >= w ? 0 : x << sh; }); break;
                case 4: bin(X.lshr(a.e, X.cst(sh, w)), [&](uint64_t x, uint64_t) { return sh >= w ? 0 : x >> sh; }); break;
                case 5: bin(X.ashr(a.e, X.cst(sh, w)), [&](uint64_t x, uint64_t) { return (uint64_t)(sx(x, w) >> std::min(sh, w - 1)); }); break;
                case 6: bin(X.udiv(a.e, b.e), [&](uint64_t x, uint64_t y) { return y ? x / y : ~0ull; }); break;
                case 7: case 8: bin(X.and_(a.e, b.e), [](uint64_t x, uint64_t y) { return x & y; }); break;
                case 9: case 10: bin(X.or_(a.e, b.e), [](uint64_t x, uint64_t y) { return x | y; }); break;
                case 11: bin(X.xor_(a.e, b.e), [](uint64_t x, uint64_t y) { return x ^ y; }); break;
                case 12: bin(X.eq(a.e, b.e), [](uint64_t x, uint64_t y) { return x == y; }); break;
                case 13: bin(X.ult(a.e, b.e), [](uint64_t x, uint64_t y) { return x < y; }); break;
                case 14: bin(X.slt(a.e, b.e), [&](uint64_t x, uint64_t y) { return sx(x, w) < sx(y, w); }); break;
                case 15: case 16: o.e = X.ite(c.e, a.e, b.e); for(int i = 0; i < K; i++) o.val.push_back(c.val[i] ? a.val[i] : b.val[i]); break;
                case 17: { if(w > 32) { s--; continue; } N d = pick(32); o.e = X.concat(a.e, d.e); if(o.e->w > 64) { s--; continue; } for(int i = 0; i < K; i++) o.val.push_back(a.val[i] << 32 | d.val[i]); break; }
                case 20:
                {
                    unsigned fw = r() % 2 ? 64 : 32, fo = FADD + r() % 4; a = pick(fw); b = pick(fw);
                    bin(X.fpBin(fo, a.e, b.e), [&](uint64_t x, uint64_t y) -> uint64_t {
                        if(fw == 64) { volatile double p = ExprCtx::asD(x), q = ExprCtx::asD(y), z = fo == FADD ? p + q : fo == FSUB ? p - q : fo == FMUL ? p * q : p / q; return ExprCtx::fromD(z); }
                        volatile float p = ExprCtx::asF(x), q = ExprCtx::asF(y), z = fo == FADD ? p + q : fo == FSUB ? p - q : fo == FMUL ? p * q : p / q; return ExprCtx::fromF(z); });
                    break;
                }
                case 21: { bool x32 = r() % 2; a = pick(x32 ? 32 : 64); b = a; bin(x32 ? X.fpExt(a.e) : X.fpTrunc(a.e), [&](uint64_t x, uint64_t) -> uint64_t { if(x32) { volatile float p = ExprCtx::asF(x); volatile double q = p; return ExprCtx::fromD(q); } volatile double p = ExprCtx::asD(x); volatile float q = (float)p; return ExprCtx::fromF(q); }); break; }
                case 22:
                {
                    unsigned fw = r() % 2 ? 64 : 32; a = pick(fw); b = pick(fw); int k = r() % 3;
                    bin(k == 0 ? X.fpEqO(a.e, b.e) : k == 1 ? X.fpLtO(a.e, b.e) : X.fpNan(a.e), [&](uint64_t x, uint64_t y) -> uint64_t {
                        double p = fw == 64 ? ExprCtx::asD(x) : ExprCtx::asF(x), q = fw == 64 ? ExprCtx::asD(y) : ExprCtx::asF(y); return k == 0 ? p == q : k == 1 ? p < q : p != p; });
                    break;
                }
                case 23:
                {
                    unsigned fw = r() % 2 ? 64 : 32, iw = r() % 2 ? 64 : 32; bool sg = r() % 2;
                    if(r() % 2) { a = pick(iw); b = a; bin(X.intToFp(sg, a.e, fw), [&](uint64_t x, uint64_t) -> uint64_t { int64_t v = sx(x, iw); if(fw == 64) return ExprCtx::fromD(sg ? (double)v : (double)x); return ExprCtx::fromF(sg ? (float)v : (float)x); }); }
                    else { a = pick(fw); b = a; sg = true; bin(X.fpToInt(true, a.e, iw), [&](uint64_t x, uint64_t) -> uint64_t {
                        double p = fw == 64 ? ExprCtx::asD(x) : ExprCtx::asF(x); return iw == 64 ? (uint64_t)_mm_cvttsd_si64(_mm_set_sd(p)) : (uint64_t)(uint32_t)_mm_cvttsd_si32(_mm_set_sd(p)); }); }
                    break;
                }
                case 18: bin(X.not1(X.eq(a.e, b.e)), [](uint64_t x, uint64_t y) { return x != y; }); break;
                case 19: bin(X.urem(a.e, b.e), [&](uint64_t x, uint64_t y) { return y ? x % y : x; }); break;
            }
            for(int i = 0; i < K; i++) { X.setModel(models[i]); uint64_t g = X.ev(o.e); if(g != o.val[i]) { printf("MISMATCH op %d w %u\n a=%s\n b=%s\n r=%s\n got %lx want %lx\n", op, w, X.str(a.e).c_str(), X.str(b.e).c_str(), X.str(o.e).c_str(), g, o.val[i]); bad++; break; } }
            if(bad) break;
            pool.push_back(o);
            if(r() % 60 == 0)
            {
                // z3: with the model's bytes fixed, the expression has the computed value
                int i = r() % K; PathCond p; p.model = std::vector<uint8_t>(6, 0); p.doms.assign(6, 0);
                std::vector<E> cs; std::vector<uint32_t> vs(*o.e->vars); if(vs.empty()) continue;
                for(auto q : vs) { Dom d; d.set(models[i][q]); p.doms[q] = S.dt.get(d); }
                std::vector<std::pair<uint32_t, uint8_t>> out;
                E cnd = X.not1(X.node(EQ, 1, {o.e, X.cst(o.val[i], o.e->w)}));
                SatR q = S.z3solve(p, cs, cnd, vs, out); z++;
                if(q == SAT) { printf("Z3 MISMATCH %s want %lx\n", X.str(o.e).c_str(), o.val[i]); bad++; }
            }
        }
    }
    printf("selftest: %d rounds, %ld solver comparisons, %d mismatches\n", rounds, z, bad);
    return bad != 0;
}
