// Hash-consed bit-vector expressions (widths 1..64) with canonicalising constructors.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <bitset>

typedef std::bitset<256> Dom;

enum Op : uint8_t { CONST, VAR, SUM, MUL, UDIV, SDIV, UREM, SREM, ANF, SHL, LSHR, ASHR,
                    EQ, ULT, SLT, CONCAT, EXTRACT, SEXT, ITE, AND1, OR1, NOT1, XOR1, FP };
// FP: val = operation | source width << 8; operands and results are IEEE bit patterns (or integers, for conversions)
enum FpOp : uint8_t { FADD, FSUB, FMUL, FDIV, FEXT, FTRUNC, FTOSI, FTOUI, SITOF, UITOF };

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if(w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

typedef std::vector<uint32_t> VarVec;

struct Expr
{
    Op op;
    uint8_t w;
    uint32_t id;
    uint64_t val;                 // CONST value / VAR index / EXTRACT low bit / SUM constant
    std::vector<const Expr*> k;   // children (CONCAT: low to high)
    std::vector<uint64_t> c;      // SUM: coefficients. ANF: pairs (subset mask, coefficient)
    const VarVec *vars;
    bool fp = false;              // contains floating point arithmetic
    bool undef = false;           // depends on an uninitialised byte
    mutable uint32_t stamp = 0;
    mutable uint64_t cache = 0;
    mutable Dom *dom = nullptr;   // truth table of single-variable boolean expressions
};
typedef const Expr *E;

struct VarInfo { std::string name; bool undef; };

struct ExprCtx
{
    std::vector<VarInfo> vars;
    std::unordered_map<std::string, uint32_t> varIndex;
    std::vector<E> varExpr;

    struct Key { size_t h; E e; };
    struct H { size_t operator()(const Key &k) const { return k.h; } };
    struct EqF { bool operator()(const Key &a, const Key &b) const
        { return a.e->op == b.e->op && a.e->w == b.e->w && a.e->val == b.e->val && a.e->k == b.e->k && a.e->c == b.e->c; } };
    std::unordered_set<Key, H, EqF> table;
    std::vector<E> constCache[65];
    uint32_t nextId = 1;
    size_t nodes = 0;

    struct VVHash { size_t operator()(const VarVec &v) const { size_t h = v.size(); for(auto x : v) h = h * 1000003 ^ x; return h; } };
    std::unordered_set<VarVec, VVHash> varsets;
    const VarVec *emptyVars;
    std::unordered_map<uint64_t, const VarVec*> unionMemo;
    std::unordered_map<const VarVec*, uint32_t> vsId;

    ExprCtx() { emptyVars = &*varsets.insert(VarVec()).first; }

    uint32_t vid(const VarVec *v) { auto it = vsId.find(v); if(it != vsId.end()) return it->second; uint32_t n = vsId.size() + 1; vsId[v] = n; return n; }
    const VarVec *vunion(const VarVec *a, const VarVec *b)
    {
        if(a == b || b->empty()) return a;
        if(a->empty()) return b;
        uint64_t ka = vid(a), kb = vid(b);
        if(ka > kb) std::swap(ka, kb);
        uint64_t key = ka << 32 | kb;
        auto it = unionMemo.find(key);
        if(it != unionMemo.end()) return it->second;
        VarVec r;
        std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
        const VarVec *p = &*varsets.insert(r).first;
        unionMemo[key] = p;
        return p;
    }

    E intern(Expr &&x)
    {
        size_t h = (size_t)x.op * 0x9E3779B97F4A7C15ull + x.w * 131 + x.val * 0xC2B2AE3D27D4EB4Full;
        for(auto p : x.k) h = (h ^ p->id) * 0x100000001B3ull + (h >> 29);
        for(auto p : x.c) h = (h ^ p) * 0x100000001B3ull + (h >> 31);
        Key key{h, &x};
        auto it = table.find(key);
        if(it != table.end()) return it->e;
        Expr *n = new Expr(std::move(x));
        n->id = nextId++;
        const VarVec *v = emptyVars;
        bool u = false, fp = n->op == FP;
        if(n->op == VAR) { VarVec one{(uint32_t)n->val}; v = &*varsets.insert(one).first; u = vars[n->val].undef; }
        for(auto p : n->k) { v = vunion(v, p->vars); u |= p->undef; fp |= p->fp; }
        n->vars = v;
        n->undef = u;
        n->fp = fp;
        table.insert(Key{h, n});
        nodes++;
        return n;
    }

    E node(Op op, unsigned w, std::vector<E> k, uint64_t val = 0, std::vector<uint64_t> c = {})
    {
        Expr x; x.op = op; x.w = w; x.id = 0; x.val = val; x.k = std::move(k); x.c = std::move(c); x.vars = nullptr;
        return intern(std::move(x));
    }

    E cst(uint64_t v, unsigned w)
    {
        v &= maskw(w);
        if(v < 256)
        {
            auto &cc = constCache[w];
            if(cc.empty()) cc.resize(256, nullptr);
            if(!cc[v]) cc[v] = node(CONST, w, {}, v);
            return cc[v];
        }
        return node(CONST, w, {}, v);
    }
    E tru() { return cst(1, 1); }
    E fls() { return cst(0, 1); }
    static bool isC(E e) { return e->op == CONST; }
    static bool isC(E e, uint64_t v) { return e->op == CONST && e->val == v; }

    uint32_t varId(const std::string &name, bool undef)
    {
        auto it = varIndex.find(name);
        if(it != varIndex.end()) return it->second;
        uint32_t id = vars.size();
        vars.push_back({name, undef});
        varIndex[name] = id;
        varExpr.push_back(node(VAR, 8, {}, id));
        return id;
    }

    // ---- sums ----
    struct Lin { uint64_t c = 0; std::vector<std::pair<E, uint64_t>> t; };
    void lin(E e, uint64_t m, Lin &l)
    {
        if(e->op == CONST) { l.c += e->val * m; return; }
        if(e->op == SUM) { l.c += e->val * m; for(size_t i = 0; i < e->k.size(); i++) l.t.push_back({e->k[i], e->c[i] * m}); return; }
        l.t.push_back({e, m});
    }
    E fromLin(Lin &l, unsigned w)
    {
        std::sort(l.t.begin(), l.t.end(), [](const std::pair<E,uint64_t> &a, const std::pair<E,uint64_t> &b) { return a.first->id < b.first->id; });
        std::vector<E> k; std::vector<uint64_t> c;
        for(size_t i = 0; i < l.t.size();)
        {
            uint64_t s = 0; size_t j = i;
            for(; j < l.t.size() && l.t[j].first == l.t[i].first; j++) s += l.t[j].second;
            s &= maskw(w);
            if(s) { k.push_back(l.t[i].first); c.push_back(s); }
            i = j;
        }
        uint64_t cc = l.c & maskw(w);
        if(k.empty()) return cst(cc, w);
        if(k.size() == 1 && cc == 0 && c[0] == 1) return k[0];
        // c + disjoint bits is a plain concatenation
        return node(SUM, w, std::move(k), cc, std::move(c));
    }
    E add(E a, E b) { if(a->w == 1) return xor_(a, b); Lin l; lin(a, 1, l); lin(b, 1, l); return fromLin(l, a->w); }
    E sub(E a, E b) { if(a->w == 1) return xor_(a, b); Lin l; lin(a, 1, l); lin(b, ~0ull, l); return fromLin(l, a->w); }
    E mul(E a, E b)
    {
        unsigned w = a->w;
        if(w == 1) return and_(a, b);
        if(isC(b)) std::swap(a, b);
        if(isC(a))
        {
            if(a->val == 0) return a;
            if((a->val & (a->val - 1)) == 0 && b->op != SUM) { unsigned s = __builtin_ctzll(a->val); return shl(b, cst(s, w)); }
            if(b->op == ITE && (isC(b->k[1]) || isC(b->k[2]))) return ite(b->k[0], mul(a, b->k[1]), mul(a, b->k[2]));   // products of choices are hard for the solver
            Lin l; lin(b, a->val, l); return fromLin(l, w);
        }
        if(a->id > b->id) std::swap(a, b);
        return node(MUL, w, {a, b});
    }

    // ---- pieces ----
    unsigned hiZeros(E e)
    {
        if(e->op == CONST) return e->val == 0 ? e->w : e->w - (64 - __builtin_clzll(e->val));
        if(e->op == CONCAT) { E t = e->k.back(); if(t->op == CONST) { unsigned z = hiZeros(t); return z == t->w && e->k.size() > 1 ? z + hiZeros(e->k[e->k.size() - 2]) * (e->k[e->k.size() - 2]->op == CONST) : z; } return 0; }
        if(e->op == ITE) return std::min(hiZerosShallow(e->k[1]), hiZerosShallow(e->k[2]));
        if(e->op == UREM && isC(e->k[1])) return hiZeros(e->k[1]);
        return 0;
    }
    unsigned hiZerosShallow(E e) { return e->op == ITE ? 0 : hiZeros(e); }

    E concatV(const std::vector<E> &in) // low to high
    {
        std::vector<E> out;
        std::function<void(E)> push = [&](E e) {
            if(e->op == CONCAT) { for(auto x : e->k) push(x); return; }
            if(!out.empty())
            {
                E p = out.back();
                if(p->op == CONST && e->op == CONST) { out.back() = cst(p->val | (e->val << p->w), p->w + e->w); return; }
                E pb = p->op == EXTRACT ? p->k[0] : nullptr;
                if(pb && e->op == EXTRACT && e->k[0] == pb && e->val == p->val + p->w)
                { out.pop_back(); push(extract(pb, p->val, p->w + e->w)); return; }
                if(anfLike(p) || anfLike(e))
                {
                    E m = mergeAnf(p, e);
                    if(m) { out.pop_back(); push(m); return; }
                }
            }
            out.push_back(e);
        };
        for(auto e : in) push(e);
        if(out.size() == 1) return out[0];
        unsigned w = 0; for(auto e : out) w += e->w;
        return node(CONCAT, w, std::move(out));
    }
    E concat(E hi, E lo) { return concatV({lo, hi}); }
    E zext(E e, unsigned w) { return w == e->w ? e : concatV({e, cst(0, w - e->w)}); }
    E sext(E e, unsigned w)
    {
        if(w == e->w) return e;
        if(isC(e)) return cst((uint64_t)sx(e->val, e->w), w);
        if(hiZeros(e) > 0) return zext(e, w);
        if(e->op == SEXT) return sext(e->k[0], w);
        if(e->op == ITE && (isC(e->k[1]) && isC(e->k[2]))) return ite(e->k[0], sext(e->k[1], w), sext(e->k[2], w));
        return node(SEXT, w, {e});
    }
    std::unordered_map<uint64_t, E> exMemo;
    E extract(E e, unsigned lo, unsigned w)
    {
        if(lo == 0 && w == e->w) return e;
        switch(e->op)
        {
            case CONST: return cst(e->val >> lo, w);
            case EXTRACT: return extract(e->k[0], e->val + lo, w);
            case CONCAT:
            {
                std::vector<E> out; unsigned pos = 0;
                for(auto p : e->k)
                {
                    unsigned a = std::max(pos, lo), b = std::min(pos + p->w, lo + w);
                    if(a < b) out.push_back(extract(p, a - pos, b - a));
                    pos += p->w;
                }
                return concatV(out);
            }
            case SEXT:
            {
                E x = e->k[0];
                if(lo + w <= x->w) return extract(x, lo, w);
                if(lo < x->w) return sext(extract(x, lo, x->w - lo), w);
                return sext(extract(x, x->w - 1, 1), w);
            }
            case ITE:
            {
                if((e->k[1]->op == CONST || e->k[1]->op == ITE || e->k[1]->op == CONCAT) && (e->k[2]->op == CONST || e->k[2]->op == ITE || e->k[2]->op == CONCAT))
                {
                    uint64_t key = (uint64_t)e->id << 16 | lo << 8 | w;
                    auto it = exMemo.find(key);
                    if(it != exMemo.end()) return it->second;
                    E r = ite(e->k[0], extract(e->k[1], lo, w), extract(e->k[2], lo, w));
                    exMemo[key] = r;
                    return r;
                }
                break;
            }
            case SUM:
                if(lo == 0)
                {
                    bool ok = true;
                    for(auto x : e->k) if(!((x->op == SEXT && x->k[0]->w <= w) || hiZeros(x) >= e->w - w)) { ok = false; break; }
                    if(ok)
                    {
                        if(w == 1) { E r = cst(e->val & 1, 1); for(size_t i = 0; i < e->k.size(); i++) if(e->c[i] & 1) r = xor_(r, extract(e->k[i], 0, 1)); return r; }
                        Lin l; l.c = e->val;
                        for(size_t i = 0; i < e->k.size(); i++) lin(extract(e->k[i], 0, w), e->c[i], l);
                        return fromLin(l, w);
                    }
                }
                break;
            case ANF:
            {
                uint64_t key = (uint64_t)e->id << 16 | lo << 8 | w;
                auto it = exMemo.find(key);
                if(it != exMemo.end()) return it->second;
                std::vector<E> ex;
                for(auto x : e->k) ex.push_back(extract(x, lo, w));
                E r = cst(0, w);
                for(size_t i = 0; i < e->c.size(); i += 2)
                {
                    E m = cst(e->c[i + 1] >> lo, w);
                    for(unsigned b = 0; b < ex.size(); b++) if(e->c[i] >> b & 1) m = w == 1 ? anfBit('&', m, ex[b]) : bitop('&', m, ex[b]);
                    r = w == 1 ? anfBit('^', r, m) : bitop('^', r, m);
                }
                exMemo[key] = r;
                return r;
            }
            default: break;
        }
        return node(EXTRACT, w, {e}, lo);
    }

    // ---- bitwise ----
    static void changes(uint64_t v, unsigned w, unsigned p, std::vector<unsigned> &b)
    {
        for(unsigned i = 1; i < w; i++) if(((v >> i) & 1) != ((v >> (i - 1)) & 1)) b.push_back(p + i);
    }
    // places where an operand has to be cut: between the pieces of a concatenation, and (for & and |)
    // wherever a constant or the constant term of an ANF changes
    void bounds(E e, unsigned p, bool consts, std::vector<unsigned> &b)
    {
        if(e->op == CONCAT) { for(auto x : e->k) { bounds(x, p, consts, b); p += x->w; b.push_back(p); } return; }
        if(!consts) return;
        if(e->op == CONST) changes(e->val, e->w, p, b);
        if(e->op == ANF) for(size_t i = 0; i < e->c.size(); i += 2) if(!e->c[i]) changes(e->c[i + 1], e->w, p, b);
    }
    struct Anf { std::vector<E> k; std::vector<std::pair<uint64_t,uint64_t>> t; };
    Anf toAnf(E e, bool opaque)
    {
        Anf a;
        if(isC(e)) { if(e->val) a.t.push_back({0, e->val}); return a; }
        if(e->op == ANF && !opaque) { a.k = e->k; for(size_t i = 0; i < e->c.size(); i += 2) a.t.push_back({e->c[i], e->c[i + 1]}); return a; }
        if(e->w == 1 && !opaque && (e->op == NOT1 || e->op == XOR1 || e->op == AND1 || e->op == OR1))
        {
            Anf r;
            if(bool1Anf(e, r, 4)) return r;
        }
        a.k.push_back(e); a.t.push_back({1, maskw(e->w)});
        return a;
    }
    bool bool1Anf(E e, Anf &r, int depth)
    {
        if(e->op == NOT1 || e->op == XOR1 || e->op == AND1 || e->op == OR1)
        {
            if(!depth) return false;
            Anf x, y;
            if(!bool1Anf(e->k[0], x, depth - 1)) return false;
            if(e->op == NOT1) { y.t.push_back({0, 1}); return anfRaw('^', x, y, 1, r); }
            if(!bool1Anf(e->k[1], y, depth - 1)) return false;
            return anfRaw(e->op == XOR1 ? '^' : e->op == AND1 ? '&' : '|', x, y, 1, r);
        }
        if(e->op == ANF) { r = toAnf(e, false); return true; }
        if(e->op != EXTRACT && e->op != VAR && e->op != CONST) return false;
        r = toAnf(e, true);
        return true;
    }
    static bool anfLike(E e) { return e->op == ANF || e->op == NOT1 || e->op == XOR1 || e->op == AND1 || e->op == OR1; }
    // two neighbouring pieces with the same form over adjacent parts of the same terms are one piece
    E mergeAnf(E p, E e)
    {
        if(!(anfLike(p) || p->op == EXTRACT) || !(anfLike(e) || e->op == EXTRACT)) return nullptr;
        Anf a = toAnf(p, false), b = toAnf(e, false);
        if(a.k.size() != b.k.size()) return nullptr;
        uint64_t ca = 0, cb = 0;
        std::vector<int> map(b.k.size(), -1); std::vector<E> nk(a.k.size());
        for(size_t i = 0; i < a.k.size(); i++)
        {
            E x = a.k[i];
            if(x->op != EXTRACT) return nullptr;
            for(size_t j = 0; j < b.k.size(); j++)
            {
                E y = b.k[j];
                if(y->op == EXTRACT && y->k[0] == x->k[0] && y->val == x->val + x->w && map[j] < 0) { map[j] = i; nk[i] = extract(x->k[0], x->val, x->w + y->w); break; }
            }
            if(!nk[i]) return nullptr;
        }
        std::vector<uint64_t> sa, sb;
        for(auto &t : a.t) { if(!t.first) ca = t.second; else { if(t.second != maskw(p->w)) return nullptr; sa.push_back(t.first); } }
        for(auto &t : b.t)
        {
            if(!t.first) { cb = t.second; continue; }
            if(t.second != maskw(e->w)) return nullptr;
            uint64_t m = 0; for(size_t j = 0; j < b.k.size(); j++) if(t.first >> j & 1) m |= 1ull << map[j];
            sb.push_back(m);
        }
        std::sort(sa.begin(), sa.end()); std::sort(sb.begin(), sb.end());
        if(sa != sb) return nullptr;
        unsigned w = p->w + e->w;
        for(auto x : nk) if(x->op == CONCAT || x->op == ANF || x->op == CONST) return nullptr;
        Anf m, z; m.k = nk; for(auto x : sa) m.t.push_back({x, maskw(w)});
        if(uint64_t c = ca | cb << p->w) z.t.push_back({0, c});
        E r;
        if(!anfOp('^', m, z, w, r)) return nullptr;
        return r;
    }
    bool anfRaw(char op, Anf a, Anf b, unsigned w, Anf &o)
    {
        std::vector<E> k = a.k; k.insert(k.end(), b.k.begin(), b.k.end());
        std::sort(k.begin(), k.end(), [](E x, E y) { return x->id < y->id; });
        k.erase(std::unique(k.begin(), k.end()), k.end());
        if(k.size() > 64) return false;
        auto remap = [&](Anf &x) {
            for(auto &t : x.t) { uint64_t m = 0; for(unsigned i = 0; i < x.k.size(); i++) if(t.first >> i & 1) m |= 1ull << (std::find(k.begin(), k.end(), x.k[i]) - k.begin()); t.first = m; }
        };
        remap(a); remap(b);
        std::vector<std::pair<uint64_t,uint64_t>> t;
        if(op != '&') { t = a.t; t.insert(t.end(), b.t.begin(), b.t.end()); }
        if(op != '^')
        {
            if(a.t.size() * b.t.size() > 256) return false;
            for(auto &x : a.t) for(auto &y : b.t) t.push_back({x.first | y.first, x.second & y.second});
        }
        std::sort(t.begin(), t.end());
        std::vector<std::pair<uint64_t,uint64_t>> r;
        for(size_t i = 0; i < t.size();) { uint64_t c = 0; size_t j = i; for(; j < t.size() && t[j].first == t[i].first; j++) c ^= t[j].second; c &= maskw(w); if(c) r.push_back({t[i].first, c}); i = j; }
        if(r.size() > 200) return false;
        o.k = k; o.t = r;
        return true;
    }
    bool anfOp(char op, const Anf &a, const Anf &b, unsigned w, E &out)
    {
        Anf o;
        if(!anfRaw(op, a, b, w, o)) return false;
        auto &k = o.k; auto &r = o.t;
        uint64_t used = 0; for(auto &x : r) used |= x.first;
        if(r.empty()) { out = cst(0, w); return true; }
        if(!used) { out = cst(r[0].second, w); return true; }
        // drop unused leaves
        std::vector<E> k2; std::vector<int> pos(k.size(), -1);
        for(unsigned i = 0; i < k.size(); i++) if(used >> i & 1) { pos[i] = k2.size(); k2.push_back(k[i]); }
        for(auto &x : r) { uint64_t m = 0; for(unsigned i = 0; i < k.size(); i++) if(x.first >> i & 1) m |= 1ull << pos[i]; x.first = m; }
        std::sort(r.begin(), r.end());
        if(r.size() == 1 && k2.size() == 1 && r[0].second == maskw(w)) { out = k2[0]; return true; }
        if(w == 1 && r.size() == 2 && k2.size() == 1 && r[0].first == 0) { out = not1(k2[0]); return true; }
        std::vector<uint64_t> c; for(auto &x : r) { c.push_back(x.first); c.push_back(x.second); }
        out = node(ANF, w, std::move(k2), 0, std::move(c));
        return true;
    }
    E anf(char op, E a, E b)
    {
        E r;
        if(anfOp(op, toAnf(a, false), toAnf(b, false), a->w, r)) return r;
        if(a->id > b->id) std::swap(a, b);
        anfOp(op, toAnf(a, true), toAnf(b, true), a->w, r);
        return r;
    }
    E bitop(char op, E a, E b)
    {
        unsigned w = a->w;
        if(isC(a) && isC(b)) return cst(op == '&' ? a->val & b->val : op == '|' ? a->val | b->val : a->val ^ b->val, w);
        if(isC(a)) std::swap(a, b);
        if(isC(b, 0)) return op == '&' ? b : a;
        if(op == '&' && isC(b, maskw(w))) return a;
        if(op == '|' && isC(b, maskw(w))) return b;
        if(a == b) return op == '^' ? cst(0, w) : a;
        if(a->op == ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], bitop(op, a->k[1], b), bitop(op, a->k[2], b));
        std::vector<unsigned> bd; bounds(a, 0, op != '^', bd); bounds(b, 0, op != '^', bd); bd.push_back(w);
        std::sort(bd.begin(), bd.end()); bd.erase(std::unique(bd.begin(), bd.end()), bd.end());
        if(bd.size() == 1) return w == 1 ? bit1(op, a, b) : anf(op, a, b);
        std::vector<E> seg; unsigned lo = 0;
        for(unsigned hi : bd)
        {
            E x = extract(a, lo, hi - lo), y = extract(b, lo, hi - lo);
            seg.push_back(hi - lo == 1 ? anfBit(op, x, y) : bitop(op, x, y));
            lo = hi;
        }
        return concatV(seg);
    }
    static bool bitLeaf(E e) { return e->op == CONST || e->op == ANF || e->op == EXTRACT || e->op == XOR1 || e->op == AND1 || (e->op == NOT1 && bitLeaf(e->k[0])); }
    E anfBit(char op, E a, E b)
    {
        if(bitLeaf(a) && bitLeaf(b)) { E r; if(anfOp(op, toAnf(a, false), toAnf(b, false), 1, r)) return r; }
        return bit1(op, a, b);
    }
    E bit1(char op, E a, E b) { return op == '&' ? and1(a, b) : op == '|' ? or1(a, b) : xor1(a, b); }
    E not1(E a)
    {
        if(isC(a)) return cst(!a->val, 1);
        if(a->op == NOT1) return a->k[0];
        return node(NOT1, 1, {a});
    }
    E and1(E a, E b)
    {
        if(isC(a)) return a->val ? b : a;
        if(isC(b)) return b->val ? a : b;
        if(a == b) return a;
        if(not1(a) == b) return fls();
        if(a->op == AND1 && (a->k[0] == b || a->k[1] == b)) return a;
        if(b->op == AND1 && (b->k[0] == a || b->k[1] == a)) return b;
        if(a->op == NOT1 && b->op == NOT1) return not1(or1(a->k[0], b->k[0]));
        if(a->id > b->id) std::swap(a, b);
        return node(AND1, 1, {a, b});
    }
    E or1(E a, E b)
    {
        if(isC(a)) return a->val ? a : b;
        if(isC(b)) return b->val ? b : a;
        if(a == b) return a;
        if(not1(a) == b) return tru();
        if(a->op == OR1 && (a->k[0] == b || a->k[1] == b)) return a;
        if(b->op == OR1 && (b->k[0] == a || b->k[1] == a)) return b;
        if(a->op == NOT1 && b->op == NOT1) return not1(and1(a->k[0], b->k[0]));
        if(a->id > b->id) std::swap(a, b);
        return node(OR1, 1, {a, b});
    }
    E xor1(E a, E b)
    {
        if(isC(a)) return a->val ? not1(b) : b;
        if(isC(b)) return b->val ? not1(a) : a;
        if(a == b) return fls();
        bool n = false;
        if(a->op == NOT1) { a = a->k[0]; n = !n; }
        if(b->op == NOT1) { b = b->k[0]; n = !n; }
        if(a == b) return cst(n, 1);
        if(a->id > b->id) std::swap(a, b);
        E r = node(XOR1, 1, {a, b});
        return n ? not1(r) : r;
    }
    E and_(E a, E b) { return a->w == 1 ? and1(a, b) : bitop('&', a, b); }
    E or_(E a, E b) { return a->w == 1 ? or1(a, b) : bitop('|', a, b); }
    E xor_(E a, E b) { return a->w == 1 ? xor1(a, b) : bitop('^', a, b); }

    E shl(E a, E b)
    {
        unsigned w = a->w;
        if(isC(b)) { if(b->val >= w) return cst(0, w); if(b->val == 0) return a; if(isC(a)) return cst(a->val << b->val, w); return concatV({cst(0, b->val), extract(a, 0, w - b->val)}); }
        return node(SHL, w, {a, b});
    }
    E lshr(E a, E b)
    {
        unsigned w = a->w;
        if(isC(b)) { if(b->val >= w) return cst(0, w); if(b->val == 0) return a; return concatV({extract(a, b->val, w - b->val), cst(0, b->val)}); }
        return node(LSHR, w, {a, b});
    }
    E ashr(E a, E b)
    {
        unsigned w = a->w;
        if(isC(b)) { uint64_t s = std::min<uint64_t>(b->val, w - 1); if(s == 0) return a; return sext(extract(a, s, w - s), w); }
        return node(ASHR, w, {a, b});
    }
    E udiv(E a, E b)
    {
        if(isC(b) && b->val && isC(a)) return cst(a->val / b->val, a->w);
        if(isC(b) && b->val && (b->val & (b->val - 1)) == 0) return lshr(a, cst(__builtin_ctzll(b->val), a->w));
        unsigned z = std::min(hiZeros(a), hiZeros(b));
        if(z && z < a->w) return zext(udiv(extract(a, 0, a->w - z), extract(b, 0, a->w - z)), a->w);
        return node(UDIV, a->w, {a, b});
    }
    E urem(E a, E b)
    {
        if(isC(b) && b->val && isC(a)) return cst(a->val % b->val, a->w);
        if(isC(b) && b->val && (b->val & (b->val - 1)) == 0) return and_(a, cst(b->val - 1, a->w));
        unsigned z = std::min(hiZeros(a), hiZeros(b));
        if(z && z < a->w) return zext(urem(extract(a, 0, a->w - z), extract(b, 0, a->w - z)), a->w);
        return node(UREM, a->w, {a, b});
    }
    E sdiv(E a, E b)
    {
        unsigned w = a->w;
        if(isC(a) && isC(b) && b->val) { int64_t x = sx(a->val, w), y = sx(b->val, w); return cst(y == -1 ? (uint64_t)-x : (uint64_t)(x / y), w); }
        if(hiZeros(a) && hiZeros(b)) return udiv(a, b);
        return node(SDIV, w, {a, b});
    }
    E srem(E a, E b)
    {
        unsigned w = a->w;
        if(isC(a) && isC(b) && b->val) { int64_t x = sx(a->val, w), y = sx(b->val, w); return cst(y == -1 ? 0 : (uint64_t)(x % y), w); }
        if(hiZeros(a) && hiZeros(b)) return urem(a, b);
        return node(SREM, w, {a, b});
    }

    std::unordered_map<uint64_t, E> eqMemo;
    E eq(E a, E b)
    {
        if(a == b) return tru();
        if(isC(a) && isC(b)) return cst(a->val == b->val, 1);
        if(a->w == 1) return not1(xor1(a, b));
        if(isC(a)) std::swap(a, b);
        unsigned w = a->w;
        if(isC(b))
        {
            if(a->op == SUM && a->k.size() == 1 && a->c[0] == 1) return eq(a->k[0], cst(b->val - a->val, w));
            if(a->op == SUM && a->k.size() == 1 && a->c[0] == maskw(w)) return eq(a->k[0], cst(a->val - b->val, w));
            if(a->op == SEXT) { E x = a->k[0]; if((uint64_t)(sx(b->val, x->w)) % 1 == 0 && ((uint64_t)sx(b->val, x->w) & maskw(w)) == b->val) return eq(x, cst(b->val, x->w)); return fls(); }
            if(a->op == ITE)
            {
                uint64_t key = (uint64_t)a->id << 32 | b->id;
                auto it = eqMemo.find(key);
                if(it != eqMemo.end()) return it->second;
                E r;
                if((a->k[1]->op == CONST || a->k[1]->op == ITE) || (a->k[2]->op == CONST || a->k[2]->op == ITE)) r = ite(a->k[0], eq(a->k[1], b), eq(a->k[2], b));
                else r = node(EQ, 1, {a, b});
                eqMemo[key] = r;
                return r;
            }
            if(a->op == ANF && a->k.size() == 1 && a->c.size() == 4 && a->c[0] == 0 && a->c[2] == 1 && a->c[3] == maskw(w)) return eq(a->k[0], cst(b->val ^ a->c[1], w));
        }
        if(a->op == CONCAT || b->op == CONCAT)
        {
            if((a->op == CONCAT || isC(a)) && (b->op == CONCAT || isC(b)))
            {
                std::vector<unsigned> bd; unsigned p = 0;
                if(a->op == CONCAT) { for(auto x : a->k) { p += x->w; bd.push_back(p); } }
                if(b->op == CONCAT) { p = 0; for(auto x : b->k) { p += x->w; bd.push_back(p); } }
                std::sort(bd.begin(), bd.end()); bd.erase(std::unique(bd.begin(), bd.end()), bd.end());
                E r = tru(); unsigned lo = 0;
                std::vector<E> parts;
                for(unsigned hi : bd) { E q = eq(extract(a, lo, hi - lo), extract(b, lo, hi - lo)); if(isC(q, 0)) return q; parts.push_back(q); lo = hi; }
                for(auto q : parts) r = and1(r, q);
                return r;
            }
            unsigned z = std::min(hiZeros(a), hiZeros(b));
            if(z && z < w) return eq(extract(a, 0, w - z), extract(b, 0, w - z));
        }
        if(a->op == SUM || b->op == SUM)
        {
            E d = sub(a, b);
            if(isC(d)) return cst(d->val == 0, 1);
            if(d->op == SUM && d->k.size() == 1 && d->c[0] == 1) return eq(d->k[0], cst(-d->val, w));
        }
        if(!isC(b) && a->id > b->id) std::swap(a, b);
        return node(EQ, 1, {a, b});
    }
    E ult(E a, E b)
    {
        unsigned w = a->w;
        if(a == b) return fls();
        if(isC(a) && isC(b)) return cst(a->val < b->val, 1);
        if(w == 1) return and1(not1(a), b);
        if(isC(b, 0)) return fls();
        if(isC(b, 1)) return eq(a, cst(0, w));
        if(isC(a, 0)) return not1(eq(b, a));
        if(isC(a, maskw(w))) return fls();
        unsigned za = hiZeros(a), zb = hiZeros(b), z = std::min(za, zb);
        if(isC(b) && za > zb) return tru();
        if(isC(a) && zb > za) return fls();
        if(z && z < w) return ult(extract(a, 0, w - z), extract(b, 0, w - z));
        if(a->op == ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], ult(a->k[1], b), ult(a->k[2], b));
        if(b->op == ITE && isC(a) && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], ult(a, b->k[1]), ult(a, b->k[2]));
        return node(ULT, 1, {a, b});
    }
    E ule(E a, E b) { return not1(ult(b, a)); }
    E slt(E a, E b)
    {
        unsigned w = a->w;
        if(a == b) return fls();
        if(isC(a) && isC(b)) return cst(sx(a->val, w) < sx(b->val, w), 1);
        if(w == 1) return and1(a, not1(b));
        unsigned za = hiZeros(a), zb = hiZeros(b);
        if(za && zb) return ult(a, b);
        if(za && isC(b)) return fls(); // b negative constant
        if(zb && isC(a)) return tru();
        if(a->op == ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], slt(a->k[1], b), slt(a->k[2], b));
        if(b->op == ITE && isC(a) && isC(b->k[1]) && isC(b->k[2])) return ite(b->k[0], slt(a, b->k[1]), slt(a, b->k[2]));
        if(a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return slt(a->k[0], b->k[0]);
        if(a->op == SEXT && isC(b)) { unsigned n = a->k[0]->w; int64_t v = sx(b->val, w), lo = -(1ll << (n - 1)), hi = (1ll << (n - 1)) - 1; if(v > hi) return tru(); if(v < lo) return fls(); return slt(a->k[0], cst(v, n)); }
        if(b->op == SEXT && isC(a)) { unsigned n = b->k[0]->w; int64_t v = sx(a->val, w), lo = -(1ll << (n - 1)), hi = (1ll << (n - 1)) - 1; if(v >= hi && v > hi - 1 && v >= hi) return fls(); if(v < lo) return tru(); return slt(cst(v, n), b->k[0]); }
        if(isC(b, 0)) return extract(a, w - 1, 1);
        if(isC(a, maskw(w))) return not1(extract(b, w - 1, 1));
        return node(SLT, 1, {a, b});
    }
    E sle(E a, E b) { return not1(slt(b, a)); }
    E ite(E c, E a, E b)
    {
        if(isC(c)) return c->val ? a : b;
        if(a == b) return a;
        if(c->op == NOT1) return ite(c->k[0], b, a);
        if(a->w == 1)
        {
            if(isC(a)) return a->val ? or1(c, b) : and1(not1(c), b);
            if(isC(b)) return b->val ? or1(not1(c), a) : and1(c, a);
            if(a == c) return or1(c, b);
            if(b == c) return and1(c, a);
            if(not1(a) == b) return not1(xor1(c, a));
            return or1(and1(c, a), and1(not1(c), b));
        }
        if(a->op == ITE && a->k[0] == c) a = a->k[1];
        if(b->op == ITE && b->k[0] == c) b = b->k[2];
        if(a == b) return a;
        unsigned z = std::min(hiZeros(a), hiZeros(b));
        if(z && z < a->w) return zext(ite(c, extract(a, 0, a->w - z), extract(b, 0, b->w - z)), a->w);
        return node(ITE, a->w, {c, a, b});
    }

    // ---- floating point (IEEE 754 binary32/64, round to nearest; NaNs as SSE gives them) ----
    static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
    static float asF(uint64_t v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
    static uint64_t fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
    static uint64_t fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
    static uint64_t fpEval(unsigned op, unsigned sw, unsigned w, uint64_t a, uint64_t b)
    {
        switch(op)
        {
            case FADD: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
            case FSUB: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
            case FMUL: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
            case FDIV: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
            case FEXT: return fromD(asF(a));
            case FTRUNC: return fromF((float)asD(a));
            case FTOSI: case FTOUI:
            {
                double d = sw == 64 ? asD(a) : asF(a);
                double lo = op == FTOSI ? -__builtin_ldexp(1, w - 1) : 0, hi = __builtin_ldexp(1, op == FTOSI ? w - 1 : w);
                d = __builtin_trunc(d);
                if(!(d >= lo && d < hi)) return 1ull << (w - 1);
                return op == FTOSI ? (uint64_t)(int64_t)d : (uint64_t)d;
            }
            case SITOF: { int64_t v = sx(a, sw); return w == 64 ? fromD((double)v) : fromF((float)v); }
            case UITOF: { uint64_t v = a & maskw(sw); return w == 64 ? fromD((double)v) : fromF((float)v); }
        }
        abort();
    }
    static uint64_t fpExp(unsigned w) { return w == 64 ? 0x7ffull << 52 : 0xffull << 23; }
    static uint64_t fpQuiet(unsigned w) { return w == 64 ? 1ull << 51 : 1ull << 22; }
    E fpAbs(E a) { return and_(a, cst(maskw(a->w - 1), a->w)); }
    E fpNan(E a) { return ult(cst(fpExp(a->w), a->w), fpAbs(a)); }
    E fpNode(unsigned op, unsigned w, E a, E b = nullptr)
    {
        if(isC(a) && (!b || isC(b))) return cst(fpEval(op, a->w, w, a->val, b ? b->val : 0) & maskw(w), w);
        return b ? node(FP, w, {a, b}, op | a->w << 8) : node(FP, w, {a}, op | a->w << 8);
    }
    E fpBin(unsigned op, E a, E b)
    {
        unsigned w = a->w;
        E r = fpNode(op, w, a, b);
        r = ite(fpNan(r), cst(1ull << (w - 1) | fpExp(w) | fpQuiet(w), w), r);
        r = ite(fpNan(b), or_(b, cst(fpQuiet(w), w)), r);
        return ite(fpNan(a), or_(a, cst(fpQuiet(w), w)), r);
    }
    E fpExt(E a)
    {
        E r = fpNode(FEXT, 64, a);
        E n = or_(concatV({cst(0, 29), extract(a, 0, 23), cst(0, 11), extract(a, 31, 1)}), cst(fpExp(64) | fpQuiet(64), 64));
        return ite(fpNan(a), n, r);
    }
    E fpTrunc(E a)
    {
        E r = fpNode(FTRUNC, 32, a);
        E n = or_(concatV({extract(a, 29, 23), cst(0, 8), extract(a, 63, 1)}), cst(fpExp(32) | fpQuiet(32), 32));
        return ite(fpNan(a), n, r);
    }
    E fpToInt(bool sg, E a, unsigned w) { return fpNode(sg ? FTOSI : FTOUI, w, a); }
    E intToFp(bool sg, E a, unsigned w) { return fpNode(sg ? SITOF : UITOF, w, a); }
    // ordered comparisons, on the bit patterns
    E fpEqO(E a, E b) { E both0 = eq(or_(fpAbs(a), fpAbs(b)), cst(0, a->w)); return and1(not1(or1(fpNan(a), fpNan(b))), or1(eq(a, b), both0)); }
    E fpLtO(E a, E b)
    {
        unsigned w = a->w;
        E sa = extract(a, w - 1, 1), sb = extract(b, w - 1, 1), both0 = eq(or_(fpAbs(a), fpAbs(b)), cst(0, w));
        E lt = ite(sa, ite(sb, ult(b, a), not1(both0)), ite(sb, fls(), ult(a, b)));
        return and1(not1(or1(fpNan(a), fpNan(b))), lt);
    }

    // ---- evaluation ----
    uint32_t gen = 0;
    const std::vector<uint8_t> *em = nullptr;
    void setModel(const std::vector<uint8_t> &m) { em = &m; gen++; }
    uint64_t ev(E e)
    {
        if(e->op == CONST) return e->val;
        if(e->op == VAR) return e->val < em->size() ? (*em)[e->val] : 0;
        if(e->stamp == gen) return e->cache;
        uint64_t r = 0; unsigned w = e->w;
        switch(e->op)
        {
            case SUM: r = e->val; for(size_t i = 0; i < e->k.size(); i++) r += ev(e->k[i]) * e->c[i]; break;
            case MUL: r = ev(e->k[0]) * ev(e->k[1]); break;
            case UDIV: { uint64_t b = ev(e->k[1]); r = b ? ev(e->k[0]) / b : ~0ull; break; }
            case UREM: { uint64_t b = ev(e->k[1]); r = b ? ev(e->k[0]) % b : ev(e->k[0]); break; }
            case SDIV: { int64_t a = sx(ev(e->k[0]), w), b = sx(ev(e->k[1]), w); r = b == 0 ? (a < 0 ? 1 : ~0ull) : b == -1 ? (uint64_t)0 - (uint64_t)a : (uint64_t)(a / b); break; }
            case SREM: { int64_t a = sx(ev(e->k[0]), w), b = sx(ev(e->k[1]), w); r = b == 0 ? (uint64_t)a : b == -1 ? 0 : (uint64_t)(a % b); break; }
            case ANF:
            {
                uint64_t v[64]; for(size_t i = 0; i < e->k.size(); i++) v[i] = ev(e->k[i]);
                for(size_t i = 0; i < e->c.size(); i += 2) { uint64_t t = e->c[i + 1]; for(size_t b = 0; b < e->k.size(); b++) if(e->c[i] >> b & 1) t &= v[b]; r ^= t; }
                break;
            }
            case SHL: { uint64_t s = ev(e->k[1]); r = s >= w ? 0 : ev(e->k[0]) << s; break; }
            case LSHR: { uint64_t s = ev(e->k[1]); r = s >= w ? 0 : ev(e->k[0]) >> s; break; }
            case ASHR: { uint64_t s = ev(e->k[1]); r = (uint64_t)(sx(ev(e->k[0]), w) >> (s >= w ? w - 1 : s)); break; }
            case EQ: r = ev(e->k[0]) == ev(e->k[1]); break;
            case ULT: r = ev(e->k[0]) < ev(e->k[1]); break;
            case SLT: r = sx(ev(e->k[0]), e->k[0]->w) < sx(ev(e->k[1]), e->k[1]->w); break;
            case CONCAT: { unsigned p = 0; for(auto x : e->k) { r |= ev(x) << p; p += x->w; } break; }
            case EXTRACT: r = ev(e->k[0]) >> e->val; break;
            case SEXT: r = (uint64_t)sx(ev(e->k[0]), e->k[0]->w); break;
            case ITE: r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
            case AND1: r = ev(e->k[0]) && ev(e->k[1]); break;
            case OR1: r = ev(e->k[0]) || ev(e->k[1]); break;
            case NOT1: r = !ev(e->k[0]); break;
            case XOR1: r = ev(e->k[0]) ^ ev(e->k[1]); break;
            case FP: r = fpEval(e->val & 0xff, e->val >> 8, w, ev(e->k[0]), e->k.size() > 1 ? ev(e->k[1]) : 0); break;
            default: abort();
        }
        r &= maskw(w);
        e->stamp = gen; e->cache = r;
        return r;
    }
    // truth table of a single-variable boolean
    const Dom &domOf(E e)
    {
        if(e->dom) return *e->dom;
        Dom *d = new Dom;
        uint32_t v = (*e->vars)[0];
        static std::vector<uint8_t> tmp;
        if(tmp.size() <= v) tmp.resize(v + 1);
        const std::vector<uint8_t> *save = em;
        em = &tmp;
        for(int i = 0; i < 256; i++) { tmp[v] = i; gen++; if(ev(e)) d->set(i); }
        em = save; gen++;
        e->dom = d;
        return *d;
    }
    std::string str(E e, int depth = 6)
    {
        static const char *n[] = {"const","var","sum","mul","udiv","sdiv","urem","srem","anf","shl","lshr","ashr","eq","ult","slt","concat","extract","sext","ite","and","or","not","xor","fp"};
        if(e->op == CONST) { char b[40]; snprintf(b, 40, "%llu:%u", (unsigned long long)e->val, e->w); return b; }
        if(e->op == VAR) return vars[e->val].name;
        if(depth == 0) return "...";
        std::string s = "(" + std::string(n[e->op]);
        if(e->op == EXTRACT || e->op == SUM) s += "[" + std::to_string(e->val) + "]";
        s += ":" + std::to_string(e->w);
        for(size_t i = 0; i < e->k.size(); i++) { s += " "; if(e->op == SUM && e->c[i] != 1) s += std::to_string((int64_t)sx(e->c[i], e->w)) + "*"; s += str(e->k[i], depth - 1); }
        return s + ")";
    }
};
