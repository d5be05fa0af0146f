// Symbolic executor for LLVM bitcode: executes a linked module (harness + real sources) from
// global constructors through main, with every sym_* input symbolic. See /verif/DESIGN.md.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <deque>
#include <map>
#include <set>
#include <atomic>
#include <fstream>
#include <sstream>
#include <random>

using namespace llvm;

static ExprCtx X;
static Solver S(X);

struct Val { E e; uint64_t v; };
static inline Val C(uint64_t v) { return Val{nullptr, v}; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : X.cst(v.v, w); }
static inline Val fromE(E e) { if(e->op == CONST) return Val{nullptr, e->val}; return Val{e, 0}; }

static const unsigned OBJ_SHIFT = 28;
static const uint64_t OFF_MASK = (1ull << OBJ_SHIFT) - 1;

// ------------------------------------------------------------------ memory
static const unsigned PG = 128;
struct Page
{
    int rc = 1;
    bool anySym = false;
    uint8_t b[PG];
    uint8_t f[PG];        // 0 undefined, 1 concrete, 2 symbolic
    E *s = nullptr;
    Page() { memset(f, 0, PG); memset(b, 0, PG); }
    Page(const Page &o) : rc(1), anySym(o.anySym) { memcpy(b, o.b, PG); memcpy(f, o.f, PG); if(o.s) { s = new E[PG]; memcpy(s, o.s, PG * sizeof(E)); } }
    ~Page() { delete[] s; }
};
enum OKind : uint8_t { HEAP, STACK, GLOBAL, FUNC, OTHER };
struct Obj
{
    int rc = 1;
    uint64_t size = 0;
    OKind kind = HEAP;
    bool alive = true, ro = false, priv = false;   // priv: thread local, or exempt from race detection
    uint8_t how = 0;         // 1 malloc 2 new 3 new[] 4 exception
    uint32_t site = 0;
    std::vector<Page*> pg;
    Obj(uint64_t n, OKind k) : size(n), kind(k) { pg.resize((n + PG - 1) / PG, nullptr); }
    Obj(const Obj &o) : rc(1), size(o.size), kind(o.kind), alive(o.alive), ro(o.ro), priv(o.priv), how(o.how), site(o.site), pg(o.pg) { for(auto p : pg) if(p) p->rc++; }
    ~Obj() { drop(); }
    void drop() { for(auto p : pg) if(p && --p->rc == 0) delete p; pg.clear(); }
    Page *rd(uint64_t off) { return pg[off / PG]; }
    Page *wr(uint64_t off)
    {
        Page *&p = pg[off / PG];
        if(!p) p = new Page();
        else if(p->rc > 1) { p->rc--; p = new Page(*p); }
        return p;
    }
};
struct Chunk { int rc = 1; Obj *o[64]; Chunk() { memset(o, 0, sizeof o); } Chunk(const Chunk &c) : rc(1) { memcpy(o, c.o, sizeof o); for(auto p : o) if(p) p->rc++; } ~Chunk() { for(auto p : o) if(p && --p->rc == 0) delete p; } };
struct Mem
{
    std::vector<Chunk*> ch;
    uint64_t next = 1;
    Mem() {}
    Mem(const Mem &m) : ch(m.ch), next(m.next) { for(auto c : ch) if(c) c->rc++; }
    Mem &operator=(const Mem &) = delete;
    ~Mem() { for(auto c : ch) if(c && --c->rc == 0) delete c; }
    Chunk *wch(uint64_t id)
    {
        uint64_t i = id / 64;
        if(ch.size() <= i) ch.resize(i + 1, nullptr);
        Chunk *&c = ch[i];
        if(!c) c = new Chunk(); else if(c->rc > 1) { c->rc--; c = new Chunk(*c); }
        return c;
    }
    Obj *get(uint64_t id) const { uint64_t i = id / 64; if(i >= ch.size() || !ch[i]) return nullptr; return ch[i]->o[id % 64]; }
    Obj *getw(uint64_t id)
    {
        Chunk *c = wch(id); Obj *&o = c->o[id % 64];
        if(o && o->rc > 1) { o->rc--; o = new Obj(*o); }
        return o;
    }
    uint64_t alloc(uint64_t n, OKind k) { uint64_t id = next++; Chunk *c = wch(id); c->o[id % 64] = new Obj(n, k); return id; }
    void erase(uint64_t id) { Chunk *c = wch(id); Obj *&o = c->o[id % 64]; if(o && --o->rc == 0) delete o; o = nullptr; }
};

// ------------------------------------------------------------------ decoded code
struct KFunction;
struct KInst
{
    unsigned opc = 0;
    const Instruction *I = nullptr;
    int32_t dst = -1;
    uint8_t w = 0, w2 = 0;
    uint16_t nslots = 0;
    unsigned sub = 0;                 // predicate / intrinsic / field offset
    std::vector<int32_t> ops;
    std::vector<std::pair<int32_t, uint64_t>> scaled; // GEP
    uint64_t imm = 0;
    std::vector<std::pair<uint64_t, int>> cases;      // switch
    int t0 = -1, t1 = -1;             // target blocks
    KFunction *callee = nullptr;
    int native = -1;
    std::vector<uint8_t> argw, argn;
    bool isPtr = false;
};
struct KPhi { int32_t dst; uint16_t n; std::vector<std::pair<int, int32_t>> in; };
struct KBlock { int first = 0; std::vector<KPhi> phis; };
struct KFunction
{
    Function *F = nullptr;
    bool decoded = false;
    std::vector<KInst> ins;
    std::vector<KBlock> blocks;
    std::vector<Val> pool;
    int nregs = 0;
    std::vector<std::pair<int32_t, uint16_t>> args;
    std::string name, pretty, file;
    int native = -1;
    uint64_t objId = 0;
    bool executed = false;
    uint64_t calls = 0;
};

struct Frame
{
    KFunction *fn = nullptr;
    int pc = 0, blk = 0, prev = -1;
    std::vector<Val> regs;
    std::vector<uint32_t> allocas;
    std::vector<std::pair<Val, uint8_t>> varargs;
    uint8_t post = 0;           // action when this frame returns (1: finish __cxa_end_catch)
    bool noRet = false;         // ignore return value
};
struct Ev { uint8_t kind; std::string name; uint64_t v; std::vector<uint32_t> vars; }; // 'M' make, 'C' choose
struct ExcRef { uint64_t addr; uint64_t ti; uint64_t dtor; int handlers; };
struct Obs { std::string name; std::vector<Val> v; uint8_t w; };

// what the first of two concurrent threads did to the bytes of an object: the times of its last accesses, and where they were
struct Shadow { struct Cell { uint32_t w = 0, r = 0, aw = 0, ar = 0; uint32_t at = 0; }; std::vector<Cell> c; };
struct Race
{
    int thr = 0;                                            // 0: no second thread exists
    uint32_t clk = 1, acq = 0;                              // time of the first thread; the part of it which happens before the second one
    std::map<uint64_t, uint32_t> rel;                       // releases of the first thread, by address
    std::map<uint64_t, std::shared_ptr<Shadow>> sh;
    std::vector<std::shared_ptr<Obj>> tls;                  // the main thread's thread local objects
};
static std::vector<std::pair<uint64_t, Obj*>> tlsInit;      // thread local objects, and what they start as
struct State
{
    Race race;
    std::vector<Frame> st;
    Mem mem;
    PathCond pc;
    std::vector<Ev> log;
    std::map<std::string, int> occ;
    std::vector<Obs> obs;
    std::vector<std::pair<E, uint64_t>> fixed;
    std::map<uint64_t, ExcRef> exc;       // by object id
    std::vector<uint64_t> caught;
    uint64_t pendExc = 0;                 // object address being propagated
    uint32_t pendSel = 0;
    uint64_t steps = 0, stepMark = 0;
    unsigned depth = 0;
    int undefN = 0;
    uint64_t allocLimit = 0; bool allocViolates = false;
    std::set<std::string> reach;
    uint64_t heapLive = 0;
    State() {}
    State(const State &) = default;
};

// ------------------------------------------------------------------ globals
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, const GlobalVariable*> gvById;
static std::unordered_map<uint64_t, KFunction*> fnById;
static std::unordered_map<const Function*, KFunction*> kfs;
static std::map<std::string, uint64_t> params;
static std::map<std::string, int64_t> tiSel;
static std::unordered_map<uint64_t, int> selOf;     // typeinfo addr -> selector
static uint64_t optMaxSteps = 3000000, optMaxForkVals = 300, optMaxSym = 4096;
static double optTime = 300, tStart;
static unsigned optJobs = 1, optSamples = 8, optSeed = 1, optMaxViol = 3;
static std::string optOut = "out.json";
static std::vector<std::string> knownIds;
static bool optTrace = false;

struct Viol { std::string kind, msg, where, replay; bool known; std::string knownId; };
static std::vector<Viol> viols;
static std::set<std::string> violKeys;
static std::map<std::string, uint64_t> reachCnt, incompl, assumesKilled, checksDone;
static uint64_t nPaths = 0, nKilled = 0, nForks = 0, nInstr = 0, nStates = 1, nObl = 0, nOblSym = 0, nUnknown = 0, nOblUnknown = 0;
struct Sample { std::string replay, expect; };
static std::vector<Sample> samples;
static uint64_t sampleSeen = 0;
static std::mt19937_64 rng;
static std::deque<State*> work;
static std::set<std::string> externWarn;

struct Kill { };          // current path ends

static State *cur;        // state being executed

static std::string where(State &s)
{
    std::string r; int n = 0;
    for(int i = (int)s.st.size() - 1; i >= 0 && n < 12; i--)
    {
        Frame &f = s.st[i];
        int pc = std::min<int>(std::max(0, f.pc - (i == (int)s.st.size() - 1 ? 0 : 1)), (int)f.fn->ins.size() - 1);
        const Instruction *I = pc >= 0 ? f.fn->ins[pc].I : nullptr;
        std::string loc;
        if(I) { const DebugLoc &d = I->getDebugLoc(); if(d) { auto *sc = cast<DIScope>(d.getScope()); loc = sc->getFilename().str() + ":" + std::to_string(d.getLine()); size_t p = loc.rfind('/'); if(p != std::string::npos) loc = loc.substr(p + 1); } }
        if(n++) r += " < ";
        r += f.fn->pretty.substr(0, 80) + (loc.empty() ? "" : "@" + loc);
    }
    return r;
}
static std::string hex(const std::vector<uint8_t> &v) { static const char *d = "0123456789abcdef"; std::string s; for(auto b : v) { s += d[b >> 4]; s += d[b & 15]; } return s.empty() ? "-" : s; }
static std::string replayOf(State &s, const std::vector<uint8_t> &m)
{
    std::string r;
    for(auto &p : params) r += "P " + p.first + " " + std::to_string(p.second) + "\n";
    for(auto &e : s.log)
    {
        if(e.kind == 'M')
        {
            std::vector<uint8_t> b; for(auto v : e.vars) b.push_back(v < m.size() ? m[v] : 0);
            r += "M " + e.name + " " + std::to_string(b.size()) + " " + hex(b) + "\n";
        }
        else r += "C " + e.name + " " + std::to_string(e.v) + "\n";
    }
    return r;
}
static std::string obsOf(State &s, const std::vector<uint8_t> &m)
{
    X.setModel(m); std::string r;
    for(auto &o : s.obs)
    {
        r += o.name; r += " ";
        if(o.w == 8) { std::vector<uint8_t> b; bool u = false; for(auto &v : o.v) { b.push_back(v.e ? X.ev(v.e) : v.v); if(v.e && v.e->undef) u = true; } r += u ? "UNDEF" : hex(b); }
        else r += std::to_string(o.v[0].e ? X.ev(o.v[0].e) : o.v[0].v);
        r += "\n";
    }
    return r;
}
static void violation(State &s, const std::string &kind, const std::string &msg, const std::vector<uint8_t> &m, const std::string &knownId = "")
{
    std::string w = where(s);
    bool known = !knownId.empty() && std::find(knownIds.begin(), knownIds.end(), knownId) != knownIds.end();
    std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : w.substr(0, w.find(" < ")));
    if(violKeys.count(key)) return;
    violKeys.insert(key);
    std::string rep = replayOf(s, m);
    viols.push_back({kind, msg, w, rep, known, knownId});
}
[[noreturn]] static void fault(State &s, const std::string &kind, const std::string &msg) { violation(s, kind, msg, s.pc.model); throw Kill(); }
[[noreturn]] static void unsupported(State &s, const std::string &msg) { incompl["unsupported: " + msg + " in " + s.st.back().fn->pretty.substr(0, 100)]++; throw Kill(); }

// ------------------------------------------------------------------ solver helpers
static State *forkState(State &s) { nForks++; nStates++; State *n = new State(s); n->depth++; s.depth++; return n; }
// adds cond to the path (must be feasible or unknown)
static bool addCond(State &s, E c)
{
    if(c->op == CONST) return c->val;
    std::vector<uint8_t> m;
    S.st.branchQueries++;
    SatR r = S.mayBeTrue(s.pc, c, m);
    if(r == UNSAT) return false;
    if(r == UNKNOWN) { nUnknown++; S.addOnly(s.pc, c); return true; }
    S.add(s.pc, c, m);
    return true;
}
// Concretise v in s by complete case split. Returns the value; may throw Kill when no value remains.
// The instruction is re-executed in the forked states (they have the value recorded in `fixed`).
static uint64_t concretize(State &s, const Val &v, unsigned w, const char *what, uint64_t limit = 0)
{
    if(!v.e) return v.v;
    E e = v.e;
    for(auto &f : s.fixed) if(f.first == e) return f.second;
    if(!limit) limit = optMaxForkVals;
    X.setModel(s.pc.model);
    uint64_t first = X.ev(e);
    std::vector<std::pair<uint64_t, std::vector<uint8_t>>> others;
    E excl = X.not1(X.eq(e, X.cst(first, w)));
    PathCond base = s.pc;
    bool complete = true;
    for(;;)
    {
        std::vector<uint8_t> m;
        S.st.branchQueries++;
        // exclusion constraints are asserted incrementally
        SatR r = S.mayBeTrue(base, excl, m);
        if(r == UNSAT) break;
        if(r == UNKNOWN) { nUnknown++; complete = false; break; }
        X.setModel(m);
        uint64_t nv = X.ev(e);
        others.push_back({nv, m});
        if(others.size() >= limit) { complete = false; break; }
        S.add(base, excl, m);
        excl = X.not1(X.eq(e, X.cst(nv, w)));
    }
    if(!complete) incompl[std::string("case split over too many values: ") + what + " in " + s.st.back().fn->pretty.substr(0, 100)]++;
    for(auto &o : others)
    {
        State *n = forkState(s);
        S.add(n->pc, X.eq(e, X.cst(o.first, w)), o.second);
        n->fixed.push_back({e, o.first});
        n->st.back().pc--;          // the instruction runs again in the copy
        work.push_back(n);
    }
    S.add(s.pc, X.eq(e, X.cst(first, w)), s.pc.model);
    s.fixed.push_back({e, first});
    return first;
}

// ------------------------------------------------------------------ memory access
static std::vector<std::string> raceFns; static std::unordered_map<std::string, uint32_t> raceFnIx;
static uint32_t fnIndex(State &s) { auto &n = s.st.back().fn->pretty; auto r = raceFnIx.emplace(n, raceFns.size() + 1); if(r.second) raceFns.push_back(n.substr(0, 120)); return r.first->second; }
static std::string objName(State &s, uint64_t id)
{
    Obj *o = s.mem.get(id);
    if(!o) return "no object";
    std::string r = o->kind == HEAP ? "heap block" : o->kind == STACK ? "stack object" : o->kind == GLOBAL ? "global" : "function";
    auto g = gvById.find(id); if(g != gvById.end()) r += " " + g->second->getName().str();
    return r + " of " + std::to_string(o->size) + " bytes";
}
// Two threads without an order between them conflict if both access a byte, one of them writes and not both are atomic.
// The first thread runs to its end before the second one; what it did before a release which the second one acquires is ordered.
static bool gAtomic = false;
static void syncRelease(State &s, uint64_t a) { if(s.race.thr == 1) s.race.rel[a] = s.race.clk++; }
static void syncAcquire(State &s, uint64_t a) { if(s.race.thr == 2) { auto it = s.race.rel.find(a); if(it != s.race.rel.end()) s.race.acq = std::max(s.race.acq, it->second); } }
// a read-modify-write (its ordering is taken for acquire and release: libstdc++ doesn't use weaker ones where it would matter)
struct AtomicScope { State &s; uint64_t a; AtomicScope(State &t, uint64_t x) : s(t), a(x) { syncAcquire(s, a); gAtomic = true; } ~AtomicScope() { gAtomic = false; syncRelease(s, a); } };
static void raceAccess(State &s, Obj *o, uint64_t id, uint64_t off, uint64_t n, bool write)
{
    if(o->priv || o->ro || o->kind == STACK || o->kind == FUNC || !n) return;
    if(s.race.thr == 1)
    {
        auto &p = s.race.sh[id];
        if(!p) { p = std::make_shared<Shadow>(); p->c.resize(o->size); }
        else if(p.use_count() > 1) p = std::make_shared<Shadow>(*p);
        for(uint64_t i = off; i < off + n; i++)
        {
            auto &c = p->c[i];
            (gAtomic ? (write ? c.aw : c.ar) : (write ? c.w : c.r)) = s.race.clk;
            if(write) c.at = fnIndex(s);
        }
        return;
    }
    auto it = s.race.sh.find(id);
    if(it == s.race.sh.end()) return;
    for(uint64_t i = off; i < off + n; i++)
    {
        auto &c = it->second->c[i]; uint32_t q = s.race.acq;
        bool bad = c.w > q || (write && c.r > q) || (!gAtomic && (c.aw > q || (write && c.ar > q)));
        if(!bad) continue;
        std::string what = objName(s, id);
        for(auto &ch : what) if(ch >= '0' && ch <= '9' && o->kind == HEAP) ch = '#';
        fault(s, "race", std::string("data race: two threads use ") + what + ", one of them writes" + (c.at ? " in " + raceFns[c.at - 1] : ""));
    }
}
static Obj *access(State &s, uint64_t addr, uint64_t n, bool write)
{
    uint64_t id = addr >> OBJ_SHIFT, off = addr & OFF_MASK;
    if(id == 0) fault(s, "null", std::string(write ? "write" : "read") + " through null pointer (address " + std::to_string(addr) + ")");
    Obj *o = s.mem.get(id);
    if(!o || !o->alive)
    {
        Obj *p = s.mem.get(id + 1); (void)p;
        fault(s, o ? "uaf" : "wild", std::string(write ? "write to" : "read of") + (o ? " freed memory" : " invalid address"));
    }
    if(o->kind == FUNC) fault(s, "oob", "data access to function");
    if(off + n > o->size) fault(s, "oob", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of " + objName(s, id));
    if(write)
    {
        if(o->ro) fault(s, "rowrite", "write to constant " + objName(s, id));
        o = s.mem.getw(id);
    }
    if(s.race.thr) raceAccess(s, o, id, off, n, write);
    return o;
}
static E undefByte(State &s)
{
    uint32_t v = X.varId("undef#" + std::to_string(s.undefN++), true);
    return X.varExpr[v];
}
static inline Val rdByte(State &s, Obj *&o, uint64_t id, uint64_t off)
{
    Page *p = o->rd(off); unsigned i = off % PG;
    if(p)
    {
        if(p->f[i] == 1) return C(p->b[i]);
        if(p->f[i] == 2) return Val{p->s[i], 0};
    }
    if(o->ro || (o->kind == GLOBAL)) return C(0);
    o = s.mem.getw(id);
    p = o->wr(off);
    if(!p->s) p->s = new E[PG]();
    E u = undefByte(s);
    p->f[i] = 2; p->s[i] = u; p->anySym = true;
    return Val{u, 0};
}
static inline void wrByte(Obj *o, uint64_t off, const Val &v)
{
    Page *p = o->wr(off); unsigned i = off % PG;
    if(!v.e) { p->f[i] = 1; p->b[i] = v.v; return; }
    if(v.e->op == CONST) { p->f[i] = 1; p->b[i] = v.e->val; return; }
    if(!p->s) p->s = new E[PG]();
    p->f[i] = 2; p->s[i] = v.e; p->anySym = true;
}
static Val loadC(State &s, uint64_t addr, unsigned w)
{
    unsigned n = (w + 7) / 8;
    Obj *o = access(s, addr, n, false);
    uint64_t id = addr >> OBJ_SHIFT, off = addr & OFF_MASK;
    // fast path
    if(off % PG + n <= PG)
    {
        Page *p = o->rd(off); unsigned i = off % PG;
        if(p)
        {
            bool all = true;
            for(unsigned k = 0; k < n; k++) if(p->f[i + k] != 1) { all = false; break; }
            if(all) { uint64_t r = 0; memcpy(&r, p->b + i, n); return C(r & maskw(w)); }
        }
    }
    Val b[8]; bool sym = false;
    for(unsigned k = 0; k < n; k++) { b[k] = rdByte(s, o, id, off + k); if(b[k].e) sym = true; }
    if(!sym) { uint64_t r = 0; for(unsigned k = 0; k < n; k++) r |= b[k].v << (8 * k); return C(r & maskw(w)); }
    if(n == 1) { return w == 8 ? b[0] : fromE(X.extract(toE(b[0], 8), 0, w)); }
    std::vector<E> parts; for(unsigned k = 0; k < n; k++) parts.push_back(toE(b[k], 8));
    E r = X.concatV(parts);
    if(w != n * 8) r = X.extract(r, 0, w);
    return fromE(r);
}
static void storeC(State &s, uint64_t addr, const Val &v, unsigned w)
{
    unsigned n = (w + 7) / 8;
    Obj *o = access(s, addr, n, true);
    uint64_t off = addr & OFF_MASK;
    if(!v.e)
    {
        uint64_t x = v.v & maskw(w);
        if(off % PG + n <= PG) { Page *p = o->wr(off); unsigned i = off % PG; memcpy(p->b + i, &x, n); memset(p->f + i, 1, n); return; }
        for(unsigned k = 0; k < n; k++) wrByte(o, off + k, C((x >> (8 * k)) & 255));
        return;
    }
    E e = w == n * 8 ? v.e : X.zext(v.e, n * 8);
    if(n == 1) { wrByte(o, off, Val{e, 0}); return; }
    for(unsigned k = 0; k < n; k++) wrByte(o, off + k, Val{X.extract(e, 8 * k, 8), 0});
}
// symbolic address: returns true and [lo,hi) offsets within one object, or concretises
static bool resolveSym(State &s, const Val &a, unsigned n, bool write, uint64_t &id, E &offE, uint64_t &lo, uint64_t &hi)
{
    X.setModel(s.pc.model);
    uint64_t av = X.ev(a.e);
    id = av >> OBJ_SHIFT;
    Obj *o = s.mem.get(id);
    if(!o || !o->alive || o->kind == FUNC || id == 0) { access(s, av, n, write); }
    if(n > o->size) { access(s, av, n, write); }
    uint64_t base = id << OBJ_SHIFT;
    offE = X.sub(a.e, X.cst(base, 64));
    // out of bounds?
    E oob = X.not1(X.ule(offE, X.cst(o->size - n, 64)));
    std::vector<uint8_t> m;
    S.st.checkQueries++;
    SatR r = S.mayBeTrue(s.pc, oob, m);
    if(r != UNSAT)
    {
        // maybe another object? look at the model's address
        if(r == SAT)
        {
            X.setModel(m); uint64_t bv = X.ev(a.e); uint64_t id2 = bv >> OBJ_SHIFT; Obj *o2 = s.mem.get(id2);
            if(id2 != id && o2 && o2->alive && (bv & OFF_MASK) + n <= o2->size) return false; // several objects: concretise
            State t(s); t.pc.model = m;
            violation(t, "oob", std::string(write ? "write" : "read") + " out of bounds at offset " + std::to_string((int64_t)(bv - base)) + " of " + objName(s, id), m);
        }
        else nUnknown++;
        if(!addCond(s, X.not1(oob))) throw Kill();
    }
    lo = 0; hi = o->size - n + 1;
    unsigned z = X.hiZeros(offE);
    if(z < 64 && z > 0 && (1ull << (64 - z)) < hi) hi = 1ull << (64 - z);
    return true;
}
static E iteTree(E idx, std::vector<E> &v, uint64_t lo, uint64_t hi, uint64_t base)
{
    if(hi - lo == 1) return v[lo - base];
    bool same = true;
    for(uint64_t i = lo + 1; i < hi; i++) if(v[i - base] != v[lo - base]) { same = false; break; }
    if(same) return v[lo - base];
    uint64_t mid = lo + (hi - lo) / 2;
    E l = iteTree(idx, v, lo, mid, base), r = iteTree(idx, v, mid, hi, base);
    return X.ite(X.ult(idx, X.cst(mid, idx->w)), l, r);
}
// the values an expression can take, if they are few and evident
static bool fewValues(E e, std::vector<uint64_t> &out, unsigned depth = 0)
{
    const size_t CAP = 16;
    out.clear();
    if(depth > 24) return false;
    if(e->op == CONST) { out.push_back(e->val); return true; }
    std::vector<uint64_t> a;
    switch(e->op)
    {
        case ITE:
            if(!fewValues(e->k[1], a, depth + 1) || !fewValues(e->k[2], out, depth + 1)) return false;
            out.insert(out.end(), a.begin(), a.end());
            break;
        case SUM:
            out.push_back(e->val);
            for(size_t i = 0; i < e->k.size(); i++)
            {
                if(!fewValues(e->k[i], a, depth + 1)) return false;
                std::vector<uint64_t> n;
                for(auto x : out) for(auto y : a) n.push_back((x + e->c[i] * y) & maskw(e->w));
                std::sort(n.begin(), n.end()); n.erase(std::unique(n.begin(), n.end()), n.end());
                if(n.size() > CAP) return false;
                out = n;
            }
            break;
        case CONCAT:
        {
            out.push_back(0); unsigned sh = 0;
            for(auto c : e->k)
            {
                if(!fewValues(c, a, depth + 1)) return false;
                std::vector<uint64_t> n;
                for(auto x : out) for(auto y : a) n.push_back(x | y << sh);
                if(n.size() > CAP) return false;
                out = n; sh += c->w;
            }
            break;
        }
        case EXTRACT: if(!fewValues(e->k[0], out, depth + 1)) return false; for(auto &x : out) x = (x >> e->val) & maskw(e->w); break;
        case SEXT: if(!fewValues(e->k[0], out, depth + 1)) return false; for(auto &x : out) x = (uint64_t)sx(x, e->k[0]->w) & maskw(e->w); break;
        case EQ: case ULT: case SLT: case AND1: case OR1: case NOT1: case XOR1: out = {0, 1}; break;
        default: if(e->w == 1) { out = {0, 1}; break; } return false;
    }
    std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
    return out.size() <= CAP;
}
static Val load(State &s, const Val &a, unsigned w, bool isPtr)
{
    if(!a.e) return loadC(s, a.v, w);
    for(auto &f : s.fixed) if(f.first == a.e) return loadC(s, f.second, w);
    if(!isPtr)
    {
        std::vector<uint64_t> vs;
        if(fewValues(a.e, vs))
        {
            // every value has to be within one object, or impossible
            bool ok = true; E r = nullptr; unsigned n = (w + 7) / 8;
            std::vector<std::pair<E, uint64_t>> alts;
            for(auto v : vs)
            {
                E c = X.eq(a.e, X.cst(v, 64));
                Obj *o = s.mem.get(v >> OBJ_SHIFT);
                bool in = o && o->alive && o->kind != FUNC && (v >> OBJ_SHIFT) && (v & OFF_MASK) + n <= o->size;
                std::vector<uint8_t> m;
                if(vs.size() > 1 && (!in || vs.size() > 2)) { SatR q = S.mayBeTrue(s.pc, c, m); if(q == UNSAT) continue; if(!in) { ok = false; break; } }
                alts.push_back({c, v});
            }
            if(ok && alts.size())
            {
                for(auto &x : alts) { E v = toE(loadC(s, x.second, w), w); r = r ? X.ite(x.first, v, r) : v; }
                return fromE(r);
            }
        }
    }
    unsigned n = (w + 7) / 8; uint64_t id, lo, hi; E off;
    if(resolveSym(s, a, n, false, id, off, lo, hi) && hi - lo <= optMaxSym && !isPtr)
    {
        std::vector<E> v; uint64_t base = id << OBJ_SHIFT;
        // stride: if the offset is known to be a multiple of n
        uint64_t stride = 1;
        E xo = X.extract(off, 0, 3);
        if(n == 8 && X.isC(xo, 0)) stride = 8; else if(n == 4 && X.isC(X.extract(off, 0, 2), 0)) stride = 4; else if(n == 2 && X.isC(X.extract(off, 0, 1), 0)) stride = 2;
        for(uint64_t i = lo; i < hi; i += stride) { Val b = loadC(s, base + i, w); v.push_back(toE(b, w)); }
        E idx = stride == 1 ? off : X.lshr(off, X.cst(__builtin_ctzll(stride), 64));
        unsigned z = X.hiZeros(idx); if(z > 0 && z < 63) idx = X.extract(idx, 0, 64 - z);
        return fromE(iteTree(idx, v, 0, v.size(), 0));
    }
    uint64_t c = concretize(s, a, 64, "load address");
    return loadC(s, c, w);
}
static void store(State &s, const Val &a, const Val &v, unsigned w)
{
    if(!a.e) { storeC(s, a.v, v, w); return; }
    for(auto &f : s.fixed) if(f.first == a.e) { storeC(s, f.second, v, w); return; }
    unsigned n = (w + 7) / 8; uint64_t id, lo, hi; E off;
    if(resolveSym(s, a, n, true, id, off, lo, hi) && hi - lo <= 128 && n == 1)
    {
        uint64_t base = id << OBJ_SHIFT; E ve = X.zext(toE(v, w), 8);
        for(uint64_t i = lo; i < hi; i++)
        {
            E c = X.eq(off, X.cst(i, 64));
            if(X.isC(c, 0)) continue;
            Val old = loadC(s, base + i, 8);
            storeC(s, base + i, fromE(X.ite(c, ve, toE(old, 8))), 8);
        }
        return;
    }
    uint64_t c = concretize(s, a, 64, "store address");
    storeC(s, c, v, w);
}
static std::string cstr(State &s, uint64_t a)
{
    std::string r;
    for(int i = 0; i < 400; i++) { Val v = loadC(s, a + i, 8); if(v.e || !v.v) break; r += (char)v.v; }
    return r;
}
static void copyBytes(State &s, uint64_t d, uint64_t sr, uint64_t n)
{
    if(!n) return;
    Obj *so = access(s, sr, n, false);
    access(s, d, n, true);
    Obj *dobj = s.mem.getw(d >> OBJ_SHIFT);
    so = s.mem.get(sr >> OBJ_SHIFT);
    uint64_t so0 = sr & OFF_MASK, d0 = d & OFF_MASK;
    bool zeroInit = so->ro || so->kind == GLOBAL;
    auto cp = [&](uint64_t i) {
        Page *p = so->rd(so0 + i); unsigned k = (so0 + i) % PG;
        uint8_t f = p ? p->f[k] : 0; uint8_t b = p ? p->b[k] : 0; E e = f == 2 ? p->s[k] : nullptr;
        if(f == 0 && zeroInit) { f = 1; b = 0; }
        Page *q = dobj->wr(d0 + i); unsigned l = (d0 + i) % PG;
        q->f[l] = f; q->b[l] = b;
        if(f == 2) { if(!q->s) q->s = new E[PG](); q->s[l] = e; q->anySym = true; }
        if(so == dobj) so = dobj;
    };
    if(so == dobj && d0 > so0) for(uint64_t i = n; i-- > 0;) cp(i);
    else for(uint64_t i = 0; i < n; i++) cp(i);
}

// ------------------------------------------------------------------ decode
static unsigned tyWidth(Type *t)
{
    if(t->isIntegerTy()) return t->getIntegerBitWidth();
    if(t->isPointerTy()) return 64;
    if(t->isFloatTy()) return 32;
    if(t->isDoubleTy()) return 64;
    return 0;
}
static unsigned slotsOf(Type *t)
{
    if(t->isVoidTy()) return 0;
    if(auto *st = dyn_cast<StructType>(t)) { unsigned n = 0; for(auto *e : st->elements()) n += slotsOf(e); return n; }
    if(auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * slotsOf(at->getElementType());
    return 1;
}
static void leaves(Type *t, uint64_t off, std::vector<std::pair<uint64_t, Type*>> &out)
{
    if(auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for(unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if(auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for(unsigned i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out); return; }
    out.push_back({off, t});
}
static uint64_t globalAddr(const GlobalValue *g)
{
    if(auto *ga = dyn_cast<GlobalAlias>(g)) { APInt off(64, 0); auto *b = ga->getAliasee()->stripAndAccumulateConstantOffsets(*DL, off, true); return globalAddr(cast<GlobalValue>(b)) + off.getZExtValue(); }
    auto it = gaddr.find(g);
    if(it == gaddr.end()) { errs() << "no address for " << g->getName() << "\n"; exit(3); }
    return it->second;
}
static uint64_t constU64(const Constant *c)
{
    if(auto *ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() > 64 ? ci->getValue().trunc(64).getZExtValue() : ci->getZExtValue();
    if(auto *cf = dyn_cast<ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); return b.getBitWidth() > 64 ? 0 : b.getZExtValue(); }
    if(isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if(auto *g = dyn_cast<GlobalValue>(c)) return globalAddr(g);
    if(auto *ce = dyn_cast<ConstantExpr>(c))
    {
        switch(ce->getOpcode())
        {
            case Instruction::GetElementPtr: { APInt off(64, 0); auto *gep = cast<GEPOperator>(ce); gep->accumulateConstantOffset(*DL, off); return constU64(cast<Constant>(gep->getPointerOperand())) + off.getZExtValue(); }
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc:
                return constU64(ce->getOperand(0)) & maskw(tyWidth(ce->getType()));
            case Instruction::Add: return (constU64(ce->getOperand(0)) + constU64(ce->getOperand(1))) & maskw(tyWidth(ce->getType()));
            case Instruction::Sub: return (constU64(ce->getOperand(0)) - constU64(ce->getOperand(1))) & maskw(tyWidth(ce->getType()));
            case Instruction::ICmp: { uint64_t a = constU64(ce->getOperand(0)), b = constU64(ce->getOperand(1)); return ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b; }
            default: break;
        }
    }
    errs() << "unhandled constant: " << *c << "\n";
    return 0;
}
static void constVals(const Constant *c, std::vector<Val> &out)
{
    Type *t = c->getType();
    if(t->isStructTy() || t->isArrayTy())
    {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for(unsigned i = 0; i < n; i++) constVals(c->getAggregateElement(i), out);
        return;
    }
    out.push_back(C(constU64(c)));
}
static int nativeId(const std::string &n);

static KFunction *kf(Function *F)
{
    auto it = kfs.find(F);
    return it == kfs.end() ? nullptr : it->second;
}
static void decode(KFunction *k)
{
    if(k->decoded) return;
    k->decoded = true;
    Function *F = k->F;
    if(F->isDeclaration()) return;
    if(auto *sp = F->getSubprogram()) { k->file = sp->getFilename().str(); if(!k->file.empty() && k->file[0] != '/') k->file = sp->getDirectory().str() + "/" + k->file; }
    std::unordered_map<const Value*, int32_t> slot;
    std::unordered_map<const BasicBlock*, int> bix;
    int n = 0;
    for(auto &a : F->args()) { unsigned ns = slotsOf(a.getType()); slot[&a] = n; k->args.push_back({n, (uint16_t)ns}); n += ns; }
    int bi = 0;
    for(auto &B : *F) { bix[&B] = bi++; for(auto &I : B) if(!I.getType()->isVoidTy()) { slot[&I] = n; n += slotsOf(I.getType()); } }
    k->nregs = n;
    std::unordered_map<const Value*, int32_t> cslot;
    auto opnd = [&](const Value *v) -> int32_t {
        auto it = slot.find(v); if(it != slot.end()) return it->second;
        auto c = cslot.find(v); if(c != cslot.end()) return c->second;
        int32_t ix = ~(int32_t)k->pool.size();
        if(auto *cc = dyn_cast<Constant>(v)) constVals(cc, k->pool);
        else k->pool.push_back(C(0));
        // aggregate constants are contiguous upwards; accessed via ~(~ix + i)
        cslot[v] = ix; return ix;
    };
    k->blocks.resize(bi);
    bi = 0;
    for(auto &B : *F)
    {
        KBlock &kb = k->blocks[bi++];
        for(auto &P : B.phis())
        {
            KPhi kp; kp.dst = slot[&P]; kp.n = slotsOf(P.getType());
            for(unsigned i = 0; i < P.getNumIncomingValues(); i++) kp.in.push_back({bix[P.getIncomingBlock(i)], opnd(P.getIncomingValue(i))});
            kb.phis.push_back(kp);
        }
        kb.first = k->ins.size();
        for(auto &I : B)
        {
            if(isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            if(auto *ii = dyn_cast<IntrinsicInst>(&I))
            {
                switch(ii->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: continue; default: break; }
            }
            KInst ki; ki.opc = I.getOpcode(); ki.I = &I;
            ki.w = tyWidth(I.getType()); ki.isPtr = I.getType()->isPointerTy();
            if(!I.getType()->isVoidTy()) { ki.dst = slot[&I]; ki.nslots = slotsOf(I.getType()); }
            switch(I.getOpcode())
            {
                case Instruction::Br: { auto &b = cast<BranchInst>(I); if(b.isConditional()) { ki.ops.push_back(opnd(b.getCondition())); ki.t0 = bix[b.getSuccessor(0)]; ki.t1 = bix[b.getSuccessor(1)]; } else ki.t0 = bix[b.getSuccessor(0)]; break; }
                case Instruction::Switch: { auto &sw = cast<SwitchInst>(I); ki.ops.push_back(opnd(sw.getCondition())); ki.w2 = tyWidth(sw.getCondition()->getType()); ki.t0 = bix[sw.getDefaultDest()]; for(auto &c : sw.cases()) ki.cases.push_back({c.getCaseValue()->getZExtValue(), bix[c.getCaseSuccessor()]}); break; }
                case Instruction::GetElementPtr:
                {
                    auto &g = cast<GetElementPtrInst>(I);
                    ki.ops.push_back(opnd(g.getPointerOperand()));
                    uint64_t off = 0;
                    for(auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt)
                    {
                        Value *ix = gt.getOperand();
                        if(StructType *st = gt.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                        uint64_t es = DL->getTypeAllocSize(gt.getIndexedType());
                        if(auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * es;
                        else { ki.scaled.push_back({opnd(ix), es}); ki.argw.push_back(tyWidth(ix->getType())); }
                    }
                    ki.imm = off;
                    break;
                }
                case Instruction::Alloca: { auto &a = cast<AllocaInst>(I); ki.imm = DL->getTypeAllocSize(a.getAllocatedType()); ki.ops.push_back(opnd(a.getArraySize())); break; }
                case Instruction::Load: ki.ops.push_back(opnd(I.getOperand(0))); break;
                case Instruction::Store: ki.ops.push_back(opnd(I.getOperand(0))); ki.ops.push_back(opnd(I.getOperand(1))); ki.w2 = tyWidth(I.getOperand(0)->getType()); ki.nslots = slotsOf(I.getOperand(0)->getType()); break;
                case Instruction::ICmp: case Instruction::FCmp: ki.sub = cast<CmpInst>(I).getPredicate(); ki.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; ki.w2 = tyWidth(I.getOperand(0)->getType()); break;
                case Instruction::ExtractValue: { auto &ev = cast<ExtractValueInst>(I); Type *t = ev.getAggregateOperand()->getType(); unsigned o = 0; for(unsigned ix : ev.indices()) { if(t->isStructTy()) { for(unsigned q = 0; q < ix; q++) o += slotsOf(t->getStructElementType(q)); t = t->getStructElementType(ix); } else { o += ix * slotsOf(t->getArrayElementType()); t = t->getArrayElementType(); } } ki.sub = o; ki.ops.push_back(opnd(I.getOperand(0))); break; }
                case Instruction::InsertValue: { auto &ev = cast<InsertValueInst>(I); Type *t = ev.getAggregateOperand()->getType(); unsigned o = 0; for(unsigned ix : ev.indices()) { if(t->isStructTy()) { for(unsigned q = 0; q < ix; q++) o += slotsOf(t->getStructElementType(q)); t = t->getStructElementType(ix); } else { o += ix * slotsOf(t->getArrayElementType()); t = t->getArrayElementType(); } } ki.sub = o; ki.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; ki.imm = slotsOf(I.getOperand(1)->getType()); break; }
                case Instruction::Call: case Instruction::Invoke:
                {
                    auto &cb = cast<CallBase>(I);
                    for(auto &a : cb.args()) { ki.ops.push_back(a->getType()->isMetadataTy() ? ~0 : opnd(a)); ki.argw.push_back(tyWidth(a->getType())); ki.argn.push_back(a->getType()->isMetadataTy() ? 0 : slotsOf(a->getType())); }
                    Value *cv = cb.getCalledOperand()->stripPointerCasts();
                    if(auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                    Function *cf = dyn_cast<Function>(cv);
                    if(cf && cf->isIntrinsic()) { ki.sub = cf->getIntrinsicID(); if(ki.sub == Intrinsic::eh_typeid_for) {} }
                    else if(cf) ki.callee = kf(cf);
                    else ki.imm = (uint64_t)(uint32_t)opnd(cb.getCalledOperand());
                    if(auto *iv = dyn_cast<InvokeInst>(&I)) { ki.t0 = bix[iv->getNormalDest()]; ki.t1 = bix[iv->getUnwindDest()]; }
                    break;
                }
                case Instruction::LandingPad: { auto &lp = cast<LandingPadInst>(I); for(unsigned c = 0; c < lp.getNumClauses(); c++) ki.ops.push_back(lp.isCatch(c) ? opnd(lp.getClause(c)) : ~0); break; }
                default:
                    for(auto &o : I.operands()) if(!isa<BasicBlock>(o)) { ki.ops.push_back(opnd(o)); }
                    if(I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0))) ki.w2 = tyWidth(I.getOperand(0)->getType());
                    break;
            }
            k->ins.push_back(std::move(ki));
        }
    }
}

// ------------------------------------------------------------------ execution helpers
static inline Val get(Frame &f, int32_t ix) { return ix >= 0 ? f.regs[ix] : f.fn->pool[~ix]; }
static inline Val getN(Frame &f, int32_t ix, unsigned i) { return ix >= 0 ? f.regs[ix + i] : f.fn->pool[~ix + i]; }
static inline void set(Frame &f, int32_t ix, const Val &v) { f.regs[ix] = v; }

static void enterBlock(Frame &f, int b)
{
    KBlock &kb = f.fn->blocks[b];
    f.prev = f.blk; f.blk = b; f.pc = kb.first;
    if(kb.phis.empty()) return;
    Val tmp[64]; std::vector<Val> big; Val *t = tmp; unsigned n = 0;
    unsigned tot = 0; for(auto &p : kb.phis) tot += p.n;
    if(tot > 64) { big.resize(tot); t = big.data(); }
    for(auto &p : kb.phis) { int32_t src = 0; bool ok = false; for(auto &i : p.in) if(i.first == f.prev) { src = i.second; ok = true; break; } if(!ok) { errs() << "phi\n"; abort(); } for(unsigned i = 0; i < p.n; i++) t[n++] = getN(f, src, i); }
    n = 0;
    for(auto &p : kb.phis) for(unsigned i = 0; i < p.n; i++) f.regs[p.dst + i] = t[n++];
}
static uint64_t heapAlloc(State &s, uint64_t n, uint8_t how)
{
    uint64_t id = s.mem.alloc(n, HEAP);
    s.mem.get(id)->how = how;
    return id << OBJ_SHIFT;
}
static void pushFrame(State &s, KFunction *k, const std::vector<Val> &args)
{
    if(s.st.size() > 3000) fault(s, "stack", "recursion deeper than 3000 frames");
    decode(k);
    k->executed = true; k->calls++;
    s.st.emplace_back();
    Frame &f = s.st.back();
    f.fn = k; f.regs.assign(k->nregs, C(0));
    for(size_t i = 0; i < args.size() && i < (size_t)k->nregs; i++) f.regs[i] = args[i];
    f.blk = -1; f.prev = -1;
    f.blk = 0; f.pc = k->blocks[0].first;
}
static void popFrame(State &s)
{
    Frame &f = s.st.back();
    for(auto id : f.allocas) { s.mem.erase(id); }
    s.st.pop_back();
}
// ---- exceptions
static const GlobalVariable *tiGV(uint64_t addr) { auto it = gvById.find(addr >> OBJ_SHIFT); return it == gvById.end() ? nullptr : it->second; }
static std::string tiName(uint64_t addr) { auto *g = tiGV(addr); if(!g) return "?"; std::string n = g->getName().str(); if(n.rfind("_ZTI", 0) == 0) { std::string d = demangle("_ZTS" + n.substr(4)); if(d.rfind("typeinfo name for ", 0) == 0) return d.substr(18); } return n; }
static bool tiDerives(uint64_t from, uint64_t to, uint64_t &adj)
{
    if(from == to) return true;
    auto *g = tiGV(from);
    if(!g) return false;
    if(auto *t = tiGV(to)) if(t->getName() == g->getName()) return true;
    if(!g->hasInitializer()) return false;
    auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
    if(!cs) return false;
    const Value *vt = cs->getOperand(0)->stripInBoundsConstantOffsets();
    std::string vn = vt->getName().str();
    if(vn.find("__si_class_type_info") != std::string::npos) return tiDerives(constU64(cs->getOperand(2)), to, adj);
    if(vn.find("__vmi_class_type_info") != std::string::npos)
    {
        for(unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2)
        {
            uint64_t a = adj; int64_t of = (int64_t)constU64(cs->getOperand(i + 1));
            a += of >> 8;
            if(tiDerives(constU64(cs->getOperand(i)), to, a)) { adj = a; return true; }
        }
    }
    return false;
}
static int selFor(uint64_t ti) { auto it = selOf.find(ti); if(it != selOf.end()) return it->second; int n = selOf.size() + 1; selOf[ti] = n; return n; }
static std::string excText(State &s, uint64_t addr)
{
    // std::exception-like: what() text via runtime layout is not portable; only the type is reported
    auto it = s.exc.find(addr >> OBJ_SHIFT);
    return it == s.exc.end() ? "?" : tiName(it->second.ti);
}
static void terminate(State &s, const std::string &why) { fault(s, "terminate", why); }
// Find a handler starting at frame index `top` (whose pc points after the call instruction).
static void unwind(State &s, uint64_t addr)
{
    uint64_t ti = s.exc[addr >> OBJ_SHIFT].ti;
    // search phase
    int found = -1; bool anyHandler = false;
    for(int i = (int)s.st.size() - 1; i >= 0; i--)
    {
        Frame &f = s.st[i];
        if(!f.pc) continue;     // main, underneath a constructor
        KInst &ci = f.fn->ins[f.pc - 1];
        if(ci.opc == Instruction::Invoke)
        {
            KBlock &lb = f.fn->blocks[ci.t1];
            KInst &lp = f.fn->ins[lb.first];
            if(lp.opc == Instruction::LandingPad)
            {
                auto *L = cast<LandingPadInst>(lp.I);
                for(unsigned c = 0; c < L->getNumClauses(); c++)
                {
                    if(L->isCatch(c)) { Val v = get(f, lp.ops[c]); uint64_t adj = 0; if(v.v == 0 || tiDerives(ti, v.v, adj)) { anyHandler = true; break; } }
                    else { anyHandler = true; break; }
                }
            }
        }
        else if(f.fn->F->doesNotThrow()) { terminate(s, "exception " + tiName(ti) + " leaves noexcept function " + f.fn->pretty.substr(0, 100)); }
        if(anyHandler) { found = i; break; }
    }
    (void)found;
    if(!anyHandler) { fault(s, "exception", "uncaught exception " + tiName(ti)); }
    while(!s.st.empty())
    {
        Frame &f = s.st.back();
        KInst &ci = f.fn->ins[f.pc - 1];
        if(ci.opc == Instruction::Invoke)
        {
            KBlock &lb = f.fn->blocks[ci.t1];
            KInst &lp = f.fn->ins[lb.first];
            auto *L = cast<LandingPadInst>(lp.I);
            int sel = 0; bool enter = L->isCleanup();
            for(unsigned c = 0; c < L->getNumClauses(); c++)
            {
                if(L->isCatch(c))
                {
                    Val v = get(f, lp.ops[c]); uint64_t adj = 0;
                    if(v.v == 0) { sel = selFor(0); enter = true; break; }
                    if(tiDerives(ti, v.v, adj)) { sel = selFor(v.v); enter = true; break; }
                }
                else { sel = -1; enter = true; break; }
            }
            if(enter)
            {
                s.pendExc = addr; s.pendSel = sel;
                enterBlock(f, ci.t1);
                return;
            }
        }
        popFrame(s);
    }
    fault(s, "exception", "uncaught exception " + tiName(ti));
}
static void throwStd(State &s, const char *fn)
{
    Function *F = M->getFunction(fn);
    if(!F || F->isDeclaration()) fault(s, "alloc", std::string("allocation failure (") + fn + ")");
    pushFrame(s, kf(F), {});
}

// ------------------------------------------------------------------ natives
enum NR { DONE, PUSHED };  // PUSHED: control transferred; do not advance/set
struct Ctx { State &s; Frame *f; KInst *k; std::vector<Val> a; Val r; bool rset; };
typedef NR (*NFn)(Ctx &);
static std::vector<std::pair<std::string, NFn>> natives;
static std::unordered_map<std::string, int> nativeIx;
static void reg(const char *n, NFn f) { nativeIx[n] = natives.size(); natives.push_back({n, f}); }
static int nativeId(const std::string &n) { auto it = nativeIx.find(n); return it == nativeIx.end() ? -1 : it->second; }

static void doCheck(State &s, const Val &c, unsigned w, const std::string &msg, const std::string &known = "")
{
    nObl++; checksDone[msg]++;
    if(!c.e) { if(!c.v) { violation(s, "check", msg, s.pc.model, known); throw Kill(); } return; }
    E b = w == 1 ? c.e : X.not1(X.eq(c.e, X.cst(0, w)));
    if(b->op == CONST) { doCheck(s, C(b->val), 1, msg, known); nObl--; checksDone[msg]--; return; }
    nOblSym++;
    S.st.checkQueries++;
    std::vector<uint8_t> m;
    SatR r = S.mayBeTrue(s.pc, X.not1(b), m);
    if(r == UNSAT) return;
    if(r == UNKNOWN) { nOblUnknown++; incompl["solver gave no answer: " + msg]++; return; }
    violation(s, "check", msg, m, known);
    if(!addCond(s, b)) throw Kill();
}
static NR nAlloc(Ctx &c, uint8_t how)
{
    State &s = c.s;
    Val n = c.a[0];
    uint64_t lim = s.allocLimit ? s.allocLimit : (1ull << 24);
    for(auto &fx : s.fixed) if(n.e && fx.first == n.e) { n = C(fx.second); break; }
    if(n.e)
    {
        E big = X.ult(X.cst(lim, 64), n.e);
        std::vector<uint8_t> m; S.st.branchQueries++;
        SatR r = S.mayBeTrue(s.pc, big, m);
        if(r == SAT)
        {
            if(s.allocViolates) { X.setModel(m); uint64_t v = X.ev(n.e); violation(s, "alloc", "allocation of " + std::to_string(v) + " bytes exceeds the limit", m); }
            else
            {
                // explored as an allocation failure
                State *t = forkState(s);
                S.add(t->pc, big, m);
                t->fixed.push_back({n.e, ~0ull});
                t->st.back().pc--;
                work.push_back(t);
            }
            if(!addCond(s, X.not1(big))) throw Kill();
        }
    }
    uint64_t v = concretize(s, n, 64, "allocation size", 200);
    if(v > lim)
    {
        if(s.allocViolates && v != ~0ull) fault(s, "alloc", "allocation of " + std::to_string(v) + " bytes exceeds the limit");
        if(how == 1) { c.r = C(0); return DONE; }
        throwStd(s, "__sym_throw_bad_alloc");
        return PUSHED;
    }
    c.r = C(heapAlloc(s, v, how));
    s.heapLive++;
    return DONE;
}
static NR nFree(Ctx &c, uint8_t how)
{
    State &s = c.s;
    uint64_t p = concretize(s, c.a[0], 64, "free");
    if(!p) return DONE;
    uint64_t id = p >> OBJ_SHIFT; Obj *o = s.mem.get(id);
    if(!o) fault(s, "badfree", "free of invalid pointer");
    if(!o->alive) fault(s, "uaf", "double free");
    if(o->kind != HEAP || (p & OFF_MASK)) fault(s, "badfree", "free of pointer not returned by an allocation (" + objName(s, id) + ")");
    if(o->how != how) fault(s, "badfree", "mismatched allocation and deallocation functions");
    if(s.race.thr) raceAccess(s, o, id, 0, o->size, true);
    o = s.mem.getw(id); o->alive = false; o->drop(); s.heapLive--;
    return DONE;
}
static NR nMemcpy(Ctx &c)
{
    State &s = c.s;
    uint64_t n = concretize(s, c.a[2], 64, "memcpy size"); 
    if(n) { uint64_t d = concretize(s, c.a[0], 64, "memcpy dst"), q = concretize(s, c.a[1], 64, "memcpy src"); copyBytes(s, d, q, n); }
    c.r = c.a[0];
    return DONE;
}
static NR nMemset(Ctx &c)
{
    State &s = c.s;
    uint64_t n = concretize(s, c.a[2], 64, "memset size");
    if(n)
    {
        uint64_t d = concretize(s, c.a[0], 64, "memset dst");
        Val b = c.a[1]; if(b.e) b = fromE(X.extract(b.e, 0, 8)); else b.v &= 255;
        Obj *o = access(s, d, n, true);
        for(uint64_t i = 0; i < n; i++) wrByte(o, (d & OFF_MASK) + i, b);
    }
    c.r = c.a[0];
    return DONE;
}
static NR nMemcmp(Ctx &c)
{
    State &s = c.s;
    uint64_t n = concretize(s, c.a[2], 64, "memcmp size");
    if(!n) { c.r = C(0); return DONE; }
    uint64_t a = concretize(s, c.a[0], 64, "memcmp a"), b = concretize(s, c.a[1], 64, "memcmp b");
    access(s, a, n, false); access(s, b, n, false);
    E r = X.cst(0, 32);
    std::vector<std::pair<E,E>> v;
    for(uint64_t i = 0; i < n; i++)
    {
        Val x = loadC(s, a + i, 8), y = loadC(s, b + i, 8);
        if(!x.e && !y.e) { if(x.v != y.v) { v.push_back({toE(x, 8), toE(y, 8)}); break; } continue; }
        v.push_back({toE(x, 8), toE(y, 8)});
    }
    for(size_t i = v.size(); i-- > 0;)
    {
        E x = v[i].first, y = v[i].second;
        r = X.ite(X.eq(x, y), r, X.ite(X.ult(x, y), X.cst(0xffffffff, 32), X.cst(1, 32)));
    }
    c.r = fromE(r);
    return DONE;
}
static NR nSymMake(Ctx &c)
{
    State &s = c.s;
    uint64_t p = c.a[0].v, n = concretize(s, c.a[1], 64, "sym_make size");
    std::string nm = cstr(s, c.a[2].v); for(auto &ch : nm) if(ch == ' ') ch = '_';
    int occ = s.occ[nm]++;
    Ev e; e.kind = 'M'; e.name = nm; e.v = 0;
    if(n) access(s, p, n, true);
    for(uint64_t i = 0; i < n; i++)
    {
        uint32_t v = X.varId(nm + "#" + std::to_string(occ) + "[" + std::to_string(i) + "]", false);
        e.vars.push_back(v);
        if(s.pc.model.size() <= v) s.pc.model.resize(v + 1, 0);
        storeC(s, p + i, Val{X.varExpr[v], 0}, 8);
    }
    s.log.push_back(e);
    return DONE;
}
static NR nChoose(Ctx &c)
{
    State &s = c.s;
    uint64_t n = concretize(s, c.a[0], 32, "sym_choose"); std::string nm = cstr(s, c.a[1].v); for(auto &ch : nm) if(ch == ' ') ch = '_';
    if(n == 0) throw Kill();
    // the log gets the value; forked copies continue after the call
    Frame &f = *c.f;
    for(uint64_t i = n; i-- > 1;)
    {
        State *t = forkState(s);
        Frame &g = t->st.back();
        Ev e; e.kind = 'C'; e.name = nm; e.v = i; t->log.push_back(e);
        KInst &ki = g.fn->ins[g.pc - 1];
        set(g, ki.dst, C(i));
        if(ki.opc == Instruction::Invoke) enterBlock(g, ki.t0);
        work.push_back(t);
    }
    (void)f;
    Ev e; e.kind = 'C'; e.name = nm; e.v = 0; s.log.push_back(e);
    c.r = C(0);
    return DONE;
}

static void registerNatives()
{
    reg("malloc", [](Ctx &c) { return nAlloc(c, 1); });
    reg("_Znwm", [](Ctx &c) { return nAlloc(c, 2); });
    reg("_Znam", [](Ctx &c) { return nAlloc(c, 3); });
    reg("_ZnwmRKSt9nothrow_t", [](Ctx &c) { return nAlloc(c, 2); });
    reg("_ZnamRKSt9nothrow_t", [](Ctx &c) { return nAlloc(c, 3); });
    reg("_ZnwmSt11align_val_t", [](Ctx &c) { return nAlloc(c, 2); });
    reg("calloc", [](Ctx &c) { Ctx d{c.s, c.f, c.k, {C(concretize(c.s, c.a[0], 64, "calloc") * concretize(c.s, c.a[1], 64, "calloc"))}, C(0), false}; NR r = nAlloc(d, 1); c.r = d.r; if(r == DONE && d.r.v) { Obj *o = c.s.mem.getw(d.r.v >> OBJ_SHIFT); for(uint64_t i = 0; i < o->size; i++) wrByte(o, i, C(0)); } return r; });
    reg("realloc", [](Ctx &c) {
        uint64_t p = concretize(c.s, c.a[0], 64, "realloc");
        Ctx d{c.s, c.f, c.k, {c.a[1]}, C(0), false}; NR r = nAlloc(d, 1); c.r = d.r; if(r != DONE || !d.r.v) return r;
        if(p) { Obj *o = c.s.mem.get(p >> OBJ_SHIFT); if(!o || !o->alive) fault(c.s, "uaf", "realloc of freed block"); uint64_t n = std::min(o->size, c.s.mem.get(d.r.v >> OBJ_SHIFT)->size); copyBytes(c.s, d.r.v, p, n); Ctx e{c.s, c.f, c.k, {C(p)}, C(0), false}; nFree(e, 1); }
        return DONE; });
    reg("free", [](Ctx &c) { return nFree(c, 1); });
    for(const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) reg(n, [](Ctx &c) { return nFree(c, 2); });
    for(const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) reg(n, [](Ctx &c) { return nFree(c, 3); });
    reg("memcpy", nMemcpy); reg("memmove", nMemcpy); reg("memset", nMemset); reg("memcmp", nMemcmp); reg("bcmp", nMemcmp);
    reg("sym_make", nSymMake);
    reg("sym_choose", nChoose);
    reg("sym_assume", [](Ctx &c) {
        Val v = c.a[0];
        if(!v.e) { if(!(v.v & 0xffffffff)) { nKilled++; throw Kill(); } return DONE; }
        E b = X.not1(X.eq(v.e, X.cst(0, 32)));
        if(!addCond(c.s, b)) { nKilled++; throw Kill(); }
        return DONE; });
    reg("sym_check", [](Ctx &c) { Val v = c.a[0]; if(!v.e) v.v &= 0xffffffff; doCheck(c.s, v, 32, cstr(c.s, c.a[1].v)); return DONE; });
    reg("sym_check_known", [](Ctx &c) { Val v = c.a[0]; if(!v.e) v.v &= 0xffffffff; doCheck(c.s, v, 32, cstr(c.s, c.a[1].v), cstr(c.s, c.a[2].v)); return DONE; });
    reg("sym_reach", [](Ctx &c) { reachCnt[cstr(c.s, c.a[0].v)]++; return DONE; });
    reg("sym_param", [](Ctx &c) { std::string n = cstr(c.s, c.a[0].v); auto it = params.find(n); if(it == params.end()) { params[n] = c.a[1].v; c.r = c.a[1]; } else c.r = C(it->second & 0xffffffff); return DONE; });
    reg("sym_alloc_limit", [](Ctx &c) { c.s.allocLimit = c.a[0].v; c.s.allocViolates = (c.a[1].v & 0xffffffff) != 0; return DONE; });
    reg("sym_is_symbolic_engine", [](Ctx &c) { c.r = C(1); return DONE; });
    reg("sym_heap_live", [](Ctx &c) { c.r = C(c.s.heapLive); return DONE; });
    reg("sym_steps_reset", [](Ctx &c) { c.s.stepMark = c.s.steps; return DONE; });
    reg("sym_observe", [](Ctx &c) { Obs o; o.name = cstr(c.s, c.a[0].v); o.w = 64; o.v.push_back(c.a[1]); c.s.obs.push_back(o); return DONE; });
    reg("sym_observe_bytes", [](Ctx &c) { Obs o; o.name = cstr(c.s, c.a[0].v); o.w = 8; uint64_t n = concretize(c.s, c.a[2], 64, "observe"); for(uint64_t i = 0; i < n; i++) o.v.push_back(loadC(c.s, c.a[1].v + i, 8)); c.s.obs.push_back(o); return DONE; });
    reg("sym_kill", [](Ctx &) -> NR { nKilled++; throw Kill(); });
    reg("sym_concretize", [](Ctx &c) { c.r = C(concretize(c.s, c.a[0], 64, "sym_concretize")); return DONE; });
    reg("sym_ite", [](Ctx &c) { Val k = c.a[0]; if(!k.e) c.r = (k.v & 0xffffffff) ? c.a[1] : c.a[2]; else c.r = fromE(X.ite(X.not1(X.eq(k.e, X.cst(0, 32))), toE(c.a[1], 64), toE(c.a[2], 64))); return DONE; });
    reg("sym_print", [](Ctx &c) { fprintf(stderr, "[print] %s %s\n", cstr(c.s, c.a[0].v).c_str(), c.a[1].e ? X.str(c.a[1].e).c_str() : std::to_string((int64_t)c.a[1].v).c_str()); return DONE; });
    reg("sym_fail", [](Ctx &c) -> NR { nObl++; violation(c.s, "check", cstr(c.s, c.a[0].v), c.s.pc.model); throw Kill(); });
    // C++ ABI
    reg("__cxa_allocate_exception", [](Ctx &c) { uint64_t id = c.s.mem.alloc(c.a[0].v, HEAP); c.s.mem.get(id)->how = 4; c.r = C(id << OBJ_SHIFT); return DONE; });
    reg("__cxa_free_exception", [](Ctx &c) { uint64_t id = c.a[0].v >> OBJ_SHIFT; Obj *o = c.s.mem.getw(id); if(o) { o->alive = false; o->drop(); } return DONE; });
    reg("__cxa_throw", [](Ctx &c) { uint64_t a = c.a[0].v; c.s.exc[a >> OBJ_SHIFT] = ExcRef{a, c.a[1].v, c.a[2].v, 0}; unwind(c.s, a); return PUSHED; });
    reg("__cxa_begin_catch", [](Ctx &c) { uint64_t a = c.a[0].v; auto it = c.s.exc.find(a >> OBJ_SHIFT); if(it != c.s.exc.end()) { it->second.handlers++; c.s.caught.push_back(it->second.addr); } c.r = C(a); return DONE; });
    reg("__cxa_get_exception_ptr", [](Ctx &c) { c.r = c.a[0]; return DONE; });
    reg("__cxa_end_catch", [](Ctx &c) {
        State &s = c.s; if(s.caught.empty()) return DONE;
        uint64_t a = s.caught.back(); s.caught.pop_back();
        auto it = s.exc.find(a >> OBJ_SHIFT); if(it == s.exc.end()) return DONE;
        if(--it->second.handlers > 0) return DONE;
        if(s.pendExc == a && it->second.handlers < 0) return DONE;
        uint64_t d = it->second.dtor;
        if(it->second.handlers == 0 && !(std::find(s.caught.begin(), s.caught.end(), a) != s.caught.end()))
        {
            if(d) { auto f = fnById.find(d >> OBJ_SHIFT); if(f != fnById.end()) { KInst &ki = *c.k; if(ki.opc == Instruction::Invoke) enterBlock(*c.f, ki.t0); pushFrame(s, f->second, {C(a)}); s.st.back().noRet = true; if(ki.opc == Instruction::Invoke) s.st.back().post = 2; s.exc.erase(a >> OBJ_SHIFT); return PUSHED; } }
            s.exc.erase(a >> OBJ_SHIFT);
        }
        return DONE; });
    reg("__cxa_rethrow", [](Ctx &c) -> NR { State &s = c.s; if(s.caught.empty()) fault(s, "terminate", "rethrow without exception"); uint64_t a = s.caught.back(); s.exc[a >> OBJ_SHIFT].handlers += 1; unwind(s, a); return PUSHED; });
    reg("__cxa_call_unexpected", [](Ctx &c) -> NR { fault(c.s, "terminate", "unexpected exception"); });
    reg("_ZSt9terminatev", [](Ctx &c) -> NR { fault(c.s, "terminate", "std::terminate called"); });
    reg("__cxa_pure_virtual", [](Ctx &c) -> NR { fault(c.s, "abort", "pure virtual call"); });
    reg("abort", [](Ctx &c) -> NR { fault(c.s, "abort", "abort called"); });
    reg("__assert_fail", [](Ctx &c) -> NR { fault(c.s, "abort", "assertion failed: " + cstr(c.s, c.a[0].v)); });
    reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](Ctx &c) -> NR { fault(c.s, "abort", "libstdc++ assertion failed"); });
    reg("exit", [](Ctx &c) -> NR { fault(c.s, "exit", "exit called"); });
    reg("_exit", [](Ctx &c) -> NR { fault(c.s, "exit", "exit called"); });
    reg("__cxa_atexit", [](Ctx &c) { c.r = C(0); return DONE; });
    reg("__cxa_thread_atexit", [](Ctx &c) { c.r = C(0); return DONE; });
    reg("__cxa_guard_acquire", [](Ctx &c) { AtomicScope as(c.s, c.a[0].v); Val v = loadC(c.s, c.a[0].v, 8); if(v.e || v.v) c.r = C(0); else { storeC(c.s, c.a[0].v, C(1), 8); c.r = C(1); } return DONE; });
    reg("__cxa_guard_release", [](Ctx &c) { syncRelease(c.s, c.a[0].v); return DONE; });
    reg("sym_thread", [](Ctx &c) {
        Race &r = c.s.race; int n = (int)c.a[0].v;
        if(n == 1) for(auto &t : tlsInit) r.tls.push_back(std::make_shared<Obj>(*c.s.mem.getw(t.first)));
        for(size_t i = 0; i < tlsInit.size(); i++)
        {
            Obj *o = c.s.mem.getw(tlsInit[i].first), *from = n ? tlsInit[i].second : r.tls[i].get();
            o->drop(); o->pg = from->pg; for(auto p : o->pg) if(p) p->rc++;
        }
        r.thr = n; if(!n) r = Race();
        return DONE; });
    reg("sym_private", [](Ctx &c) { c.s.mem.getw(c.a[0].v >> OBJ_SHIFT)->priv = true; return DONE; });
    reg("__cxa_guard_abort", [](Ctx &c) { storeC(c.s, c.a[0].v, C(0), 8); return DONE; });
    reg("__dynamic_cast", [](Ctx &c) {
        State &s = c.s; uint64_t p = concretize(s, c.a[0], 64, "dynamic_cast"); uint64_t dst = c.a[2].v;
        if(!p) { c.r = C(0); return DONE; }
        Val vt = loadC(s, p, 64); Val off = loadC(s, vt.v - 16, 64), ti = loadC(s, vt.v - 8, 64);
        uint64_t whole = p + off.v, adj = 0;
        if(tiDerives(ti.v, dst, adj)) c.r = C(whole + adj); else c.r = C(0);
        return DONE; });
    for(const char *n : {"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "perror", "fwrite", "fputc"}) reg(n, [](Ctx &c) { c.r = C(0); return DONE; });
    for(const char *n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy"}) reg(n, [](Ctx &c) { c.r = C(0); return DONE; });
    for(const char *n : {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock"}) reg(n, [](Ctx &c) { syncAcquire(c.s, c.a[0].v); c.r = C(0); return DONE; });
    for(const char *n : {"pthread_mutex_unlock", "pthread_rwlock_unlock"}) reg(n, [](Ctx &c) { syncRelease(c.s, c.a[0].v); c.r = C(0); return DONE; });
}

// ------------------------------------------------------------------ interpreter
static void endPath(State &s)
{
    nPaths++;
    sampleSeen++;
    if(s.log.size() || true)
    {
        int slot = -1;
        if(samples.size() < optSamples) { samples.push_back({}); slot = samples.size() - 1; }
        else { uint64_t r = rng() % sampleSeen; if(r < optSamples) slot = r; }
        if(slot >= 0) { samples[slot].replay = replayOf(s, s.pc.model); samples[slot].expect = obsOf(s, s.pc.model); }
    }
    throw Kill();
}
// the same expression over other uninitialised bytes
static E otherUndef(E e, std::unordered_map<E, E> &memo)
{
    if(!e->undef) return e;
    auto it = memo.find(e);
    if(it != memo.end()) return it->second;
    E r;
    if(e->op == VAR) r = X.varExpr[X.varId(X.vars[e->val].name + "'", true)];
    else
    {
        std::vector<E> k;
        for(auto p : e->k) k.push_back(otherUndef(p, memo));
        r = X.node(e->op, e->w, std::move(k), e->val, e->c);
    }
    memo[e] = r;
    return r;
}
static void checkUndefBranch(State &s, E c)
{
    if(!c->undef) return;
    // it may only look as if it depended on them, as in an array with an index which can't reach them
    std::unordered_map<E, E> memo;
    E same = X.eq(c, otherUndef(c, memo));
    std::vector<uint8_t> m;
    S.st.branchQueries++;
    if(S.mayBeTrue(s.pc, X.not1(same), m) == UNSAT) return;
    fault(s, "uninit", "control flow depends on uninitialised memory");
}
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { float d; uint32_t x = v; memcpy(&d, &x, 4); return d; }
static uint64_t fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t fromF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

static void finishCall(State &s, Frame &f, KInst &k, const Val &r)
{
    if(k.dst >= 0 && k.nslots) set(f, k.dst, r);
    if(k.opc == Instruction::Invoke) enterBlock(f, k.t0);
}
static void execCall(State &s, Frame &f, KInst &k)
{
    // f.pc already points after the call
    if(!k.callee && k.sub)
    {
        auto arg = [&](unsigned i) { return get(f, k.ops[i]); };
        unsigned w = k.w;
        switch(k.sub)
        {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { Ctx c{s, &f, &k, {arg(0), arg(1), arg(2)}, C(0), false}; if(k.argw[2] == 32 && c.a[2].e) c.a[2] = fromE(X.zext(c.a[2].e, 64)); nMemcpy(c); return; }
            case Intrinsic::memset: { Ctx c{s, &f, &k, {arg(0), arg(1), arg(2)}, C(0), false}; if(k.argw[2] == 32 && c.a[2].e) c.a[2] = fromE(X.zext(c.a[2].e, 64)); nMemset(c); return; }
            case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
            {
                Val a = arg(0), b = arg(1);
                E x = toE(a, w), y = toE(b, w);
                E lt = (k.sub == Intrinsic::umin || k.sub == Intrinsic::umax) ? X.ult(x, y) : X.slt(x, y);
                set(f, k.dst, fromE((k.sub == Intrinsic::umin || k.sub == Intrinsic::smin) ? X.ite(lt, x, y) : X.ite(lt, y, x)));
                return;
            }
            case Intrinsic::abs: { E x = toE(arg(0), w); set(f, k.dst, fromE(X.ite(X.slt(x, X.cst(0, w)), X.sub(X.cst(0, w), x), x))); return; }
            case Intrinsic::bswap: { E x = toE(arg(0), w); std::vector<E> p; for(int i = w / 8 - 1; i >= 0; i--) p.push_back(X.extract(x, 8 * i, 8)); set(f, k.dst, fromE(X.concatV(p))); return; }
            case Intrinsic::fshl: case Intrinsic::fshr:
            {
                E a = toE(arg(0), w), b = toE(arg(1), w); Val sh = arg(2); uint64_t n = concretize(s, sh, w, "funnel shift") % w;
                if(k.sub == Intrinsic::fshr) n = (w - n) % w == 0 ? (n == 0 ? w : 0) : w - n;  // normalised to a left shift by n (w means take b)
                if(k.sub == Intrinsic::fshr && n == w) { set(f, k.dst, fromE(b)); return; }
                if(n == 0) { set(f, k.dst, fromE(a)); return; }
                set(f, k.dst, fromE(X.concatV({X.extract(b, w - n, n), X.extract(a, 0, w - n)})));
                return;
            }
            case Intrinsic::bitreverse: { E x = toE(arg(0), w); std::vector<E> p; for(int i = w - 1; i >= 0; i--) p.push_back(X.extract(x, i, 1)); set(f, k.dst, fromE(X.concatV(p))); return; }
            case Intrinsic::ctpop: { E x = toE(arg(0), w); E r = X.cst(0, w); for(unsigned i = 0; i < w; i++) r = X.add(r, w == 1 ? x : X.zext(X.extract(x, i, 1), w)); set(f, k.dst, fromE(r)); return; }
            case Intrinsic::ctlz: case Intrinsic::cttz:
            {
                E x = toE(arg(0), w); E r = X.cst(w, w);
                for(unsigned i = 0; i < w; i++) { unsigned bit = k.sub == Intrinsic::ctlz ? i : w - 1 - i; E b = X.extract(x, bit, 1); r = X.ite(b, X.cst(k.sub == Intrinsic::ctlz ? w - 1 - bit : bit, w), r); }
                set(f, k.dst, fromE(r)); return;
            }
            case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
            case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
            {
                unsigned aw = k.argw[0]; E a = toE(arg(0), aw), b = toE(arg(1), aw), r, o;
                if(k.sub == Intrinsic::uadd_with_overflow) { r = X.add(a, b); o = X.ult(r, a); }
                else if(k.sub == Intrinsic::usub_with_overflow) { r = X.sub(a, b); o = X.ult(a, b); }
                else if(k.sub == Intrinsic::umul_with_overflow)
                {
                    r = X.mul(a, b);
                    if(X.isC(b) && b->val) o = X.ult(X.cst(maskw(aw) / b->val, aw), a);
                    else if(X.isC(a) && a->val) o = X.ult(X.cst(maskw(aw) / a->val, aw), b);
                    else if(X.isC(a) || X.isC(b)) o = X.fls();
                    else o = X.and1(X.not1(X.eq(a, X.cst(0, aw))), X.not1(X.eq(X.udiv(r, X.ite(X.eq(a, X.cst(0, aw)), X.cst(1, aw), a)), b)));
                }
                else
                {
                    if(k.sub == Intrinsic::smul_with_overflow)
                    {
                        if(arg(0).e || arg(1).e) unsupported(s, "symbolic smul.with.overflow");
                        __int128 p = (__int128)sx(a->val, aw) * sx(b->val, aw); r = X.cst((uint64_t)p, aw); o = X.cst(p != (__int128)sx(r->val, aw), 1);
                    }
                    else
                    {
                        bool add = k.sub == Intrinsic::sadd_with_overflow;
                        r = add ? X.add(a, b) : X.sub(a, b);
                        E sa = X.extract(a, aw - 1, 1), sb = X.extract(b, aw - 1, 1), sr = X.extract(r, aw - 1, 1);
                        o = X.and1(add ? X.not1(X.xor1(sa, sb)) : X.xor1(sa, sb), X.xor1(sa, sr));
                    }
                }
                set(f, k.dst, fromE(r)); set(f, k.dst + 1, fromE(o));
                return;
            }
            case Intrinsic::uadd_sat: { E a = toE(arg(0), w), b = toE(arg(1), w); E r = X.add(a, b); set(f, k.dst, fromE(X.ite(X.ult(r, a), X.cst(maskw(w), w), r))); return; }
            case Intrinsic::usub_sat: { E a = toE(arg(0), w), b = toE(arg(1), w); set(f, k.dst, fromE(X.ite(X.ult(a, b), X.cst(0, w), X.sub(a, b)))); return; }
            case Intrinsic::invariant_start: set(f, k.dst, C(0)); return;
            case Intrinsic::invariant_end: return;
            case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability: case Intrinsic::ptrmask:
                if(k.sub == Intrinsic::ptrmask) { set(f, k.dst, fromE(X.and_(toE(arg(0), 64), toE(arg(1), 64)))); return; }
                set(f, k.dst, arg(0)); return;
            case Intrinsic::is_constant: set(f, k.dst, C(0)); return;
            case Intrinsic::objectsize: set(f, k.dst, C(~0ull)); return;
            case Intrinsic::stacksave: set(f, k.dst, C(0)); return;
            case Intrinsic::stackrestore: return;
            case Intrinsic::trap: case Intrinsic::ubsantrap: fault(s, "abort", "trap"); 
            case Intrinsic::eh_typeid_for: set(f, k.dst, C(selFor(arg(0).v))); return;
            case Intrinsic::vastart:
            {
                uint64_t p = arg(0).v; uint64_t id = s.mem.alloc(std::max<size_t>(8, f.varargs.size() * 8), STACK); f.allocas.push_back(id);
                for(size_t i = 0; i < f.varargs.size(); i++) { unsigned vw = f.varargs[i].second; Val v = f.varargs[i].first; if(v.e && vw < 64) v = fromE(X.zext(v.e, 64)); storeC(s, (id << OBJ_SHIFT) + 8 * i, v, 64); }
                storeC(s, p, C(48), 32); storeC(s, p + 4, C(176), 32); storeC(s, p + 8, C(id << OBJ_SHIFT), 64); storeC(s, p + 16, C(0), 64);
                return;
            }
            case Intrinsic::vaend: return;
            case Intrinsic::vacopy: copyBytes(s, arg(0).v, arg(1).v, 24); return;
            case Intrinsic::fabs: set(f, k.dst, fromE(X.fpAbs(toE(arg(0), w)))); return;
            case Intrinsic::copysign: { E m = X.cst(maskw(w - 1), w); set(f, k.dst, fromE(X.or_(X.and_(toE(arg(0), w), m), X.and_(toE(arg(1), w), X.cst(1ull << (w - 1), w))))); return; }
            case Intrinsic::ceil: if(arg(0).e) unsupported(s, "symbolic float"); set(f, k.dst, C(w == 64 ? fromD(__builtin_ceil(asD(arg(0).v))) : fromF(__builtin_ceilf(asF(arg(0).v))))); return;
            case Intrinsic::floor: if(arg(0).e) unsupported(s, "symbolic float"); set(f, k.dst, C(w == 64 ? fromD(__builtin_floor(asD(arg(0).v))) : fromF(__builtin_floorf(asF(arg(0).v))))); return;
            default: unsupported(s, "intrinsic " + cast<CallBase>(k.I)->getCalledFunction()->getName().str());
        }
    }
    KFunction *cal = k.callee;
    if(!cal)
    {
        auto *cb0 = cast<CallBase>(k.I);
        if(cb0->isInlineAsm()) { finishCall(s, f, k, C(0)); return; }
        Val t = get(f, (int32_t)(uint32_t)k.imm);
        uint64_t a = concretize(s, t, 64, "call target");
        auto it = fnById.find(a >> OBJ_SHIFT);
        if(it == fnById.end() || (a & OFF_MASK)) fault(s, "badcall", a == 0 ? "call through null function pointer" : "call through invalid function pointer");
        cal = it->second;
    }
    if(cal->native >= 0)
    {
        Ctx c{s, &f, &k, {}, C(0), false};
        for(size_t i = 0; i < k.ops.size(); i++) for(unsigned j = 0; j < k.argn[i]; j++) c.a.push_back(getN(f, k.ops[i], j));
        cal->executed = true;
        if(natives[cal->native].second(c) == DONE) finishCall(s, s.st.back(), k, c.r);
        return;
    }
    if(cal->F->isDeclaration()) unsupported(s, "external function " + cal->name);
    std::vector<Val> args; args.reserve(k.ops.size());
    auto *cb = cast<CallBase>(k.I);
    unsigned nfix = cal->F->arg_size();
    std::vector<std::pair<Val, uint8_t>> va;
    std::vector<uint32_t> byvals;
    for(size_t i = 0; i < k.ops.size(); i++)
    {
        if(i >= nfix) { va.push_back({get(f, k.ops[i]), k.argw[i]}); continue; }
        if(cb->isByValArgument(i))
        {
            uint64_t n = DL->getTypeAllocSize(cb->getParamByValType(i));
            uint64_t src = concretize(s, get(f, k.ops[i]), 64, "byval");
            uint64_t id = s.mem.alloc(n, STACK); copyBytes(s, id << OBJ_SHIFT, src, n); byvals.push_back(id);
            args.push_back(C(id << OBJ_SHIFT));
            continue;
        }
        for(unsigned j = 0; j < k.argn[i]; j++) args.push_back(getN(f, k.ops[i], j));
    }
    pushFrame(s, cal, args);
    s.st.back().varargs = va;
    for(auto b : byvals) s.st.back().allocas.push_back(b);
}

static void branchOn(State &s, Frame &f, E c, int t0, int t1)
{
    // both directions
    std::vector<uint8_t> mt, mf;
    X.setModel(s.pc.model);
    bool cv = X.ev(c);
    E other = cv ? X.not1(c) : c;
    std::vector<uint8_t> m;
    S.st.branchQueries++;
    SatR r = S.mayBeTrue(s.pc, other, m);
    if(r == UNSAT) { enterBlock(f, cv ? t0 : t1); return; }
    checkUndefBranch(s, c);
    if(r == UNKNOWN) nUnknown++;
    State *n = forkState(s);
    if(r == SAT) S.add(n->pc, other, m); else S.addOnly(n->pc, other);
    enterBlock(n->st.back(), cv ? t1 : t0);
    work.push_back(n);
    S.add(s.pc, cv ? c : X.not1(c), s.pc.model);
    enterBlock(f, cv ? t0 : t1);
}

static void step(State &s)
{
    Frame &f = s.st.back();
    KInst &k = f.fn->ins[f.pc];
    f.pc++;
    s.steps++; nInstr++;
    auto A = [&](unsigned i) { return get(f, k.ops[i]); };
    switch(k.opc)
    {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        {
            Val a = A(0), b = A(1); unsigned w = k.w;
            if(w == 0 || w > 64) unsupported(s, "integer width");
            if(k.opc == Instruction::UDiv || k.opc == Instruction::SDiv || k.opc == Instruction::URem || k.opc == Instruction::SRem)
            {
                if(!b.e) { if((b.v & maskw(w)) == 0) fault(s, "div", "division by zero"); }
                else
                {
                    E z = X.eq(b.e, X.cst(0, w)); std::vector<uint8_t> m; S.st.checkQueries++;
                    if(S.mayBeTrue(s.pc, z, m) == SAT) { violation(s, "div", "division by zero", m); if(!addCond(s, X.not1(z))) throw Kill(); }
                }
            }
            if(!a.e && !b.e)
            {
                uint64_t x = a.v & maskw(w), y = b.v & maskw(w), r = 0;
                switch(k.opc)
                {
                    case Instruction::Add: r = x + y; break;
                    case Instruction::Sub: r = x - y; break;
                    case Instruction::Mul: r = x * y; break;
                    case Instruction::And: r = x & y; break;
                    case Instruction::Or: r = x | y; break;
                    case Instruction::Xor: r = x ^ y; break;
                    case Instruction::Shl: r = y >= w ? 0 : x << y; break;
                    case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
                    case Instruction::AShr: r = (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)); break;
                    case Instruction::UDiv: r = x / y; break;
                    case Instruction::URem: r = x % y; break;
                    case Instruction::SDiv: { int64_t p = sx(x, w), q = sx(y, w); r = q == -1 ? (uint64_t)0 - (uint64_t)p : (uint64_t)(p / q); break; }
                    case Instruction::SRem: { int64_t p = sx(x, w), q = sx(y, w); r = q == -1 ? 0 : (uint64_t)(p % q); break; }
                }
                set(f, k.dst, C(r & maskw(w)));
                return;
            }
            E x = toE(a, w), y = toE(b, w), r = nullptr;
            switch(k.opc)
            {
                case Instruction::Add: r = X.add(x, y); break;
                case Instruction::Sub: r = X.sub(x, y); break;
                case Instruction::Mul: r = X.mul(x, y); break;
                case Instruction::And: r = X.and_(x, y); break;
                case Instruction::Or: r = X.or_(x, y); break;
                case Instruction::Xor: r = X.xor_(x, y); break;
                case Instruction::Shl: r = X.shl(x, y); break;
                case Instruction::LShr: r = X.lshr(x, y); break;
                case Instruction::AShr: r = X.ashr(x, y); break;
                case Instruction::UDiv: r = X.udiv(x, y); break;
                case Instruction::URem: r = X.urem(x, y); break;
                case Instruction::SDiv: r = X.sdiv(x, y); break;
                case Instruction::SRem: r = X.srem(x, y); break;
            }
            set(f, k.dst, fromE(r));
            return;
        }
        case Instruction::ICmp:
        {
            Val a = A(0), b = A(1); unsigned w = k.w2;
            if(w == 0 || w > 64) unsupported(s, "integer width");
            if(!a.e && !b.e)
            {
                uint64_t x = a.v & maskw(w), y = b.v & maskw(w); bool r = false;
                switch(k.sub)
                {
                    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
                    case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
                    case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
                    case CmpInst::ICMP_SLT: r = sx(x, w) < sx(y, w); break; case CmpInst::ICMP_SLE: r = sx(x, w) <= sx(y, w); break;
                    case CmpInst::ICMP_SGT: r = sx(x, w) > sx(y, w); break; case CmpInst::ICMP_SGE: r = sx(x, w) >= sx(y, w); break;
                }
                set(f, k.dst, C(r)); return;
            }
            E x = toE(a, w), y = toE(b, w), r = nullptr;
            switch(k.sub)
            {
                case CmpInst::ICMP_EQ: r = X.eq(x, y); break; case CmpInst::ICMP_NE: r = X.not1(X.eq(x, y)); break;
                case CmpInst::ICMP_ULT: r = X.ult(x, y); break; case CmpInst::ICMP_ULE: r = X.ule(x, y); break;
                case CmpInst::ICMP_UGT: r = X.ult(y, x); break; case CmpInst::ICMP_UGE: r = X.ule(y, x); break;
                case CmpInst::ICMP_SLT: r = X.slt(x, y); break; case CmpInst::ICMP_SLE: r = X.sle(x, y); break;
                case CmpInst::ICMP_SGT: r = X.slt(y, x); break; case CmpInst::ICMP_SGE: r = X.sle(y, x); break;
            }
            set(f, k.dst, fromE(r));
            return;
        }
        case Instruction::Load:
        {
            if(k.nslots != 1 || k.w == 0 || k.w > 64)
            {
                uint64_t a = concretize(s, A(0), 64, "aggregate load");
                std::vector<std::pair<uint64_t, Type*>> lv; leaves(k.I->getType(), 0, lv);
                for(size_t i = 0; i < lv.size(); i++) { unsigned w = tyWidth(lv[i].second); if(!w || w > 64) unsupported(s, "load type"); f.regs[k.dst + i] = loadC(s, a + lv[i].first, w); }
                return;
            }
            bool at = s.race.thr && cast<LoadInst>(k.I)->isAtomic();
            if(at) { gAtomic = true; auto od = cast<LoadInst>(k.I)->getOrdering(); if(isAcquireOrStronger(od)) syncAcquire(s, concretize(s, A(0), 64, "atomic load")); }
            Val v;
            try { v = load(s, A(0), k.w, k.isPtr); } catch(...) { gAtomic = false; throw; }
            gAtomic = false;
            set(s.st.back(), k.dst, v);
            return;
        }
        case Instruction::Store:
        {
            if(k.nslots != 1 || k.w2 == 0 || k.w2 > 64)
            {
                uint64_t a = concretize(s, A(1), 64, "aggregate store");
                std::vector<std::pair<uint64_t, Type*>> lv; leaves(k.I->getOperand(0)->getType(), 0, lv);
                for(size_t i = 0; i < lv.size(); i++) { unsigned w = tyWidth(lv[i].second); if(!w || w > 64) unsupported(s, "store type"); storeC(s, a + lv[i].first, getN(f, k.ops[0], i), w); }
                return;
            }
            if(s.race.thr && cast<StoreInst>(k.I)->isAtomic())
            {
                gAtomic = true; try { store(s, A(1), A(0), k.w2); } catch(...) { gAtomic = false; throw; } gAtomic = false;
                if(isReleaseOrStronger(cast<StoreInst>(k.I)->getOrdering())) syncRelease(s, concretize(s, A(1), 64, "atomic store"));
                return;
            }
            store(s, A(1), A(0), k.w2);
            return;
        }
        case Instruction::GetElementPtr:
        {
            Val b = A(0);
            if(!b.e)
            {
                uint64_t r = b.v + k.imm; bool sym = false;
                for(size_t i = 0; i < k.scaled.size(); i++) { Val ix = get(f, k.scaled[i].first); if(ix.e) { sym = true; break; } r += (uint64_t)sx(ix.v, k.argw[i]) * k.scaled[i].second; }
                if(!sym) { set(f, k.dst, C(r)); return; }
            }
            E r = X.add(toE(b, 64), X.cst(k.imm, 64));
            for(size_t i = 0; i < k.scaled.size(); i++) { Val ix = get(f, k.scaled[i].first); E e = X.sext(toE(ix, k.argw[i]), 64); r = X.add(r, X.mul(e, X.cst(k.scaled[i].second, 64))); }
            set(f, k.dst, fromE(r));
            return;
        }
        case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::BitCast:
        {
            Val v = A(0);
            if(k.w == 0 || k.w > 64 || k.w2 == 0 || k.w2 > 64) unsupported(s, "cast width");
            if(!v.e) { set(f, k.dst, C(v.v & maskw(std::min<unsigned>(k.w, k.w2)))); return; }
            set(f, k.dst, fromE(k.w < k.w2 ? X.extract(v.e, 0, k.w) : X.zext(v.e, k.w)));
            return;
        }
        case Instruction::SExt: { Val v = A(0); if(k.w > 64) unsupported(s, "cast width"); if(!v.e) set(f, k.dst, C((uint64_t)sx(v.v, k.w2) & maskw(k.w))); else set(f, k.dst, fromE(X.sext(v.e, k.w))); return; }
        case Instruction::Freeze: for(unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = getN(f, k.ops[0], i); return;
        case Instruction::Select:
        {
            Val c = A(0);
            if(!c.e) { for(unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = getN(f, k.ops[(c.v & 1) ? 1 : 2], i); return; }
            if(k.isPtr || k.nslots != 1)
            {
                bool same = true; for(unsigned i = 0; i < k.nslots; i++) { Val a = getN(f, k.ops[1], i), b = getN(f, k.ops[2], i); if(a.e != b.e || a.v != b.v) same = false; }
                if(same) { for(unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = getN(f, k.ops[1], i); return; }
                uint64_t v = concretize(s, c, 1, "select");
                for(unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = getN(f, k.ops[v ? 1 : 2], i);
                return;
            }
            set(f, k.dst, fromE(X.ite(c.e, toE(A(1), k.w), toE(A(2), k.w))));
            return;
        }
        case Instruction::Br:
            if(k.ops.empty()) { enterBlock(f, k.t0); return; }
            { Val c = A(0); if(!c.e) { enterBlock(f, (c.v & 1) ? k.t0 : k.t1); return; } branchOn(s, f, c.e, k.t0, k.t1); }
            return;
        case Instruction::Switch:
        {
            Val c = A(0); unsigned w = k.w2;
            if(!c.e) { for(auto &cs : k.cases) if(cs.first == (c.v & maskw(w))) { enterBlock(f, cs.second); return; } enterBlock(f, k.t0); return; }
            // group by target
            std::map<int, E> tg; E any = X.fls();
            for(auto &cs : k.cases) { E q = X.eq(c.e, X.cst(cs.first, w)); if(!tg.count(cs.second)) tg[cs.second] = X.fls(); tg[cs.second] = X.or1(tg[cs.second], q); any = X.or1(any, q); }
            if(!tg.count(k.t0)) tg[k.t0] = X.fls();
            tg[k.t0] = X.or1(tg[k.t0], X.not1(any));
            std::vector<std::tuple<int, E, std::vector<uint8_t>, bool>> feas;
            for(auto &t : tg) { std::vector<uint8_t> m; S.st.branchQueries++; SatR r = S.mayBeTrue(s.pc, t.second, m); if(r == UNSAT) continue; if(r == UNKNOWN) nUnknown++; feas.push_back({t.first, t.second, m, r == SAT}); }
            if(feas.empty()) throw Kill();
            if(feas.size() > 1) checkUndefBranch(s, c.e);
            for(size_t i = 1; i < feas.size(); i++)
            {
                State *n = forkState(s);
                if(std::get<3>(feas[i])) S.add(n->pc, std::get<1>(feas[i]), std::get<2>(feas[i])); else S.addOnly(n->pc, std::get<1>(feas[i]));
                enterBlock(n->st.back(), std::get<0>(feas[i]));
                work.push_back(n);
            }
            if(std::get<3>(feas[0])) S.add(s.pc, std::get<1>(feas[0]), std::get<2>(feas[0])); else S.addOnly(s.pc, std::get<1>(feas[0]));
            enterBlock(f, std::get<0>(feas[0]));
            return;
        }
        case Instruction::Alloca:
        {
            uint64_t n = concretize(s, A(0), 64, "alloca");
            uint64_t id = s.mem.alloc(k.imm * n, STACK);
            f.allocas.push_back(id);
            set(f, k.dst, C(id << OBJ_SHIFT));
            return;
        }
        case Instruction::Call: case Instruction::Invoke:
        {
            execCall(s, f, k);
            return;
        }
        case Instruction::Ret:
        {
            auto *ri = cast<ReturnInst>(k.I);
            Val rv[16]; unsigned n = 0;
            if(ri->getReturnValue()) { n = slotsOf(ri->getReturnValue()->getType()); if(n > 16) unsupported(s, "return size"); for(unsigned i = 0; i < n; i++) rv[i] = getN(f, k.ops[0], i); }
            bool noRet = f.noRet; uint8_t post = f.post;
            popFrame(s);
            if(s.st.empty()) endPath(s);
            Frame &c = s.st.back();
            KInst &ci = c.fn->ins[c.pc - 1];
            if(noRet) { (void)post; return; }
            if(ci.dst >= 0) for(unsigned i = 0; i < n && i < ci.nslots; i++) c.regs[ci.dst + i] = rv[i];
            if(ci.opc == Instruction::Invoke) enterBlock(c, ci.t0);
            return;
        }
        case Instruction::LandingPad: set(f, k.dst, C(s.pendExc)); set(f, k.dst + 1, C((uint32_t)s.pendSel)); return;
        case Instruction::Resume: { uint64_t a = A(0).v; popFrame(s); if(s.st.empty()) fault(s, "exception", "uncaught exception " + excText(s, a)); unwind(s, a); return; }
        case Instruction::ExtractValue: for(unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = getN(f, k.ops[0], k.sub + i); return;
        case Instruction::InsertValue: { std::vector<Val> t; for(unsigned i = 0; i < k.nslots; i++) t.push_back(getN(f, k.ops[0], i)); for(unsigned i = 0; i < k.imm; i++) t[k.sub + i] = getN(f, k.ops[1], i); for(unsigned i = 0; i < k.nslots; i++) f.regs[k.dst + i] = t[i]; return; }
        case Instruction::Unreachable: fault(s, "unreachable", "unreachable code executed");
        case Instruction::Fence: return;
        case Instruction::AtomicRMW:
        {
            auto *rm = cast<AtomicRMWInst>(k.I); unsigned w = tyWidth(rm->getValOperand()->getType());
            uint64_t a = concretize(s, A(0), 64, "atomicrmw"); AtomicScope as(s, a); Val old = loadC(s, a, w); Val v = A(1); E x = toE(old, w), y = toE(v, w), r;
            switch(rm->getOperation()) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = X.add(x, y); break; case AtomicRMWInst::Sub: r = X.sub(x, y); break; case AtomicRMWInst::And: r = X.and_(x, y); break; case AtomicRMWInst::Or: r = X.or_(x, y); break; case AtomicRMWInst::Xor: r = X.xor_(x, y); break; default: unsupported(s, "atomicrmw"); }
            storeC(s, a, fromE(r), w); set(f, k.dst, old); return;
        }
        case Instruction::AtomicCmpXchg:
        {
            unsigned w = tyWidth(k.I->getOperand(1)->getType()); uint64_t a = concretize(s, A(0), 64, "cmpxchg"); AtomicScope as(s, a); Val old = loadC(s, a, w);
            E eq = X.eq(toE(old, w), toE(A(1), w));
            storeC(s, a, fromE(X.ite(eq, toE(A(2), w), toE(old, w))), w); set(f, k.dst, old); set(f, k.dst + 1, fromE(eq)); return;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        {
            Val a = A(0), b = A(1);
            if(k.w != 64 && k.w != 32) unsupported(s, "float width");
            unsigned op = k.opc == Instruction::FAdd ? FADD : k.opc == Instruction::FSub ? FSUB : k.opc == Instruction::FMul ? FMUL : FDIV;
            if(a.e || b.e) { if(k.opc == Instruction::FRem) unsupported(s, "symbolic floating point remainder"); set(f, k.dst, fromE(X.fpBin(op, toE(a, k.w), toE(b, k.w)))); return; }
            if(k.opc == Instruction::FRem) { set(f, k.dst, C(k.w == 64 ? fromD(__builtin_fmod(asD(a.v), asD(b.v))) : fromF(__builtin_fmodf(asF(a.v), asF(b.v))))); return; }
            set(f, k.dst, C(ExprCtx::fpEval(op, k.w, k.w, a.v, b.v)));
            return;
        }
        case Instruction::FNeg: { Val a = A(0); uint64_t m = 1ull << (k.w - 1); set(f, k.dst, a.e ? fromE(X.xor_(a.e, X.cst(m, k.w))) : C(a.v ^ m)); return; }
        case Instruction::FCmp:
        {
            if(k.w2 != 64 && k.w2 != 32) unsupported(s, "float width");
            E a = toE(A(0), k.w2), b = toE(A(1), k.w2), un = X.or1(X.fpNan(a), X.fpNan(b)), r;
            switch(k.sub)
            {
                case CmpInst::FCMP_OEQ: r = X.fpEqO(a, b); break; case CmpInst::FCMP_UEQ: r = X.or1(un, X.fpEqO(a, b)); break;
                case CmpInst::FCMP_ONE: r = X.and1(X.not1(un), X.not1(X.fpEqO(a, b))); break; case CmpInst::FCMP_UNE: r = X.not1(X.fpEqO(a, b)); break;
                case CmpInst::FCMP_OLT: r = X.fpLtO(a, b); break; case CmpInst::FCMP_ULT: r = X.or1(un, X.fpLtO(a, b)); break;
                case CmpInst::FCMP_OLE: r = X.or1(X.fpLtO(a, b), X.fpEqO(a, b)); break; case CmpInst::FCMP_ULE: r = X.not1(X.fpLtO(b, a)); break;
                case CmpInst::FCMP_OGT: r = X.fpLtO(b, a); break; case CmpInst::FCMP_UGT: r = X.or1(un, X.fpLtO(b, a)); break;
                case CmpInst::FCMP_OGE: r = X.or1(X.fpLtO(b, a), X.fpEqO(a, b)); break; case CmpInst::FCMP_UGE: r = X.not1(X.fpLtO(a, b)); break;
                case CmpInst::FCMP_ORD: r = X.not1(un); break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_TRUE: r = X.tru(); break; default: r = X.fls();
            }
            set(f, k.dst, fromE(r)); return;
        }
        case Instruction::FPExt: { Val a = A(0); if(k.w != 64 || k.w2 != 32) unsupported(s, "float width"); set(f, k.dst, fromE(X.fpExt(toE(a, 32)))); return; }
        case Instruction::FPTrunc: { Val a = A(0); if(k.w != 32 || k.w2 != 64) unsupported(s, "float width"); set(f, k.dst, fromE(X.fpTrunc(toE(a, 64)))); return; }
        case Instruction::FPToUI: case Instruction::FPToSI: { Val a = A(0); if((k.w2 != 64 && k.w2 != 32) || k.w > 64) unsupported(s, "float width"); bool sg = k.opc == Instruction::FPToSI; set(f, k.dst, a.e ? fromE(X.fpToInt(sg, a.e, k.w)) : C(ExprCtx::fpEval(sg ? FTOSI : FTOUI, k.w2, k.w, a.v, 0) & maskw(k.w))); return; }
        case Instruction::UIToFP: case Instruction::SIToFP: { Val a = A(0); if((k.w != 64 && k.w != 32) || k.w2 > 64) unsupported(s, "float width"); bool sg = k.opc == Instruction::SIToFP; set(f, k.dst, a.e ? fromE(X.intToFp(sg, a.e, k.w)) : C(ExprCtx::fpEval(sg ? SITOF : UITOF, k.w2, k.w, a.v, 0))); return; }
        default: unsupported(s, std::string("instruction ") + k.I->getOpcodeName());
    }
}

static bool timeUp() { return nowS() - tStart > optTime; }
static bool stopAll = false;
static void runOne(State *sp)
{
    State &s = *sp; cur = sp;
    try
    {
        uint64_t n = 0;
        for(;;)
        {
            // an instruction that case-splits is re-executed in forks: remember pc to restore
            Frame &f = s.st.back();
            (void)f;
            step(s);
            if(s.steps - s.stepMark > optMaxSteps) fault(s, "nontermination", "path exceeds " + std::to_string(optMaxSteps) + " instructions");
            if((++n & 0x3fff) == 0 && timeUp()) { incompl["time limit"]++; stopAll = true; break; }
        }
    }
    catch(Kill &) {}
    delete sp;
    if(viols.size())
    {
        unsigned n = 0; for(auto &v : viols) if(!v.known) n++;
        if(n >= optMaxViol) stopAll = true;
    }
}

static void initGlobal(State &s, uint64_t id, uint64_t off, const Constant *c)
{
    Type *t = c->getType();
    if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if(auto *cd = dyn_cast<ConstantDataSequential>(c))
    {
        Obj *o = s.mem.getw(id); StringRef raw = cd->getRawDataValues();
        for(size_t i = 0; i < raw.size(); i++) wrByte(o, off + i, C((uint8_t)raw[i]));
        return;
    }
    if(t->isStructTy()) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for(unsigned i = 0; i < t->getStructNumElements(); i++) initGlobal(s, id, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if(t->isArrayTy()) { uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()); for(unsigned i = 0; i < t->getArrayNumElements(); i++) initGlobal(s, id, off + i * es, c->getAggregateElement(i)); return; }
    unsigned w = tyWidth(t); if(!w || w > 64) return;
    uint64_t v = constU64(c); Obj *o = s.mem.getw(id);
    for(unsigned i = 0; i < (w + 7) / 8; i++) wrByte(o, off + i, C((v >> (8 * i)) & 255));
}

static std::string jesc(const std::string &s) { std::string r; for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c == '\n') r += "\\n"; else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string jmap(const std::map<std::string, uint64_t> &m) { std::string r = "{"; bool first = true; for(auto &p : m) { if(!first) r += ","; first = false; r += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); } return r + "}"; }
static void dumpJson(const std::string &file, uint64_t left)
{
    std::ofstream o(file + ".tmp");
    o << "{\"paths\":" << nPaths << ",\"killed\":" << nKilled << ",\"forks\":" << nForks << ",\"states\":" << nStates << ",\"instructions\":" << nInstr
      << ",\"obligations\":" << nObl << ",\"obligations_symbolic\":" << nOblSym << ",\"obligations_unknown\":" << nOblUnknown << ",\"unknown\":" << nUnknown << ",\"left\":" << left
      << ",\"queries\":" << S.st.branchQueries + S.st.checkQueries << ",\"check_queries\":" << S.st.checkQueries << ",\"fast\":" << S.st.fast + S.st.tried << ",\"cache_hits\":" << S.st.cacheHits
      << ",\"z3\":" << S.st.z3 << ",\"z3_sat\":" << S.st.z3sat << ",\"z3_unsat\":" << S.st.z3unsat << ",\"z3_unknown\":" << S.st.z3unknown << ",\"z3_time\":" << S.st.z3time << ",\"z3_max\":" << S.st.z3max
      << ",\"nodes\":" << X.nodes << ",\"time\":" << nowS() - tStart;
    o << ",\"reach\":" << jmap(reachCnt) << ",\"incomplete\":" << jmap(incompl) << ",\"checks\":" << jmap(checksDone);
    o << ",\"violations\":[";
    for(size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; o << (i ? "," : "") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"known\":" << (v.known ? "true" : "false") << ",\"known_id\":\"" << jesc(v.knownId) << "\",\"replay\":\"" << jesc(v.replay) << "\"}"; }
    o << "],\"samples\":[";
    for(size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << "{\"replay\":\"" << jesc(samples[i].replay) << "\",\"expect\":\"" << jesc(samples[i].expect) << "\"}";
    o << "],\"functions\":[";
    // functions of the library which were executed, and those which the compiler has inlined into them
    std::set<std::string> fns;
    auto ours = [](const std::string &f) { return f.find("/frnetlib/") != std::string::npos || f.find("/src/") != std::string::npos; };
    for(auto &p : kfs)
    {
        if(!p.second->executed || p.second->F->isDeclaration()) continue;
        auto add = [&](const DISubprogram *sp)
        {
            if(!sp || !sp->getFile()) return;
            std::string file = sp->getFile()->getFilename().str();
            if(file.find('/') == std::string::npos) file = sp->getFile()->getDirectory().str() + "/" + file;
            if(!ours(file)) return;
            std::string n = sp->getLinkageName().empty() ? sp->getName().str() : llvm::demangle(sp->getLinkageName().str());
            fns.insert(n + " (" + file.substr(file.find_last_of('/') + 1) + ")");
        };
        add(p.second->F->getSubprogram());
        for(auto &b : *p.second->F) for(auto &i : b)
            for(const DILocation *l = i.getDebugLoc().get(); l; l = l->getInlinedAt()) add(l->getScope()->getSubprogram());
    }
    bool first = true;
    for(auto &f : fns) { o << (first ? "" : ",") << "\"" << jesc(f) << "\""; first = false; }
    o << "]}\n";
    o.close();
    rename((file + ".tmp").c_str(), file.c_str());
}

int main(int argc, char **argv)
{
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    if(rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ul << 30)) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ul << 30) : std::min<rlim_t>(rl.rlim_max, 1ul << 30); if(!getenv("SYMEX_RE")) { setenv("SYMEX_RE", "1", 1); if(setrlimit(RLIMIT_STACK, &rl) == 0) execv("/proc/self/exe", argv); } }
    std::string file;
    for(int i = 1; i < argc; i++)
    {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if(a == "--out") optOut = nx(); else if(a == "--time") optTime = atof(nx().c_str()); else if(a == "--jobs") optJobs = atoi(nx().c_str());
        else if(a == "--steps") optMaxSteps = atoll(nx().c_str()); else if(a == "--samples") optSamples = atoi(nx().c_str()); else if(a == "--seed") optSeed = atoi(nx().c_str());
        else if(a == "--max-viol") optMaxViol = atoi(nx().c_str()); else if(a == "--query-timeout") S.timeoutMs = atoi(nx().c_str());
        else if(a == "--known") knownIds.push_back(nx()); else if(a == "--dump-smt") S.dumpDir = nx(); else if(a == "--trace") optTrace = true;
        else if(a == "-p") { std::string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 0); }
        else file = a;
    }
    tStart = nowS();
    rng.seed(optSeed * 7919ull + 13);
    registerNatives();
    SMDiagnostic err;
    M = parseIRFile(file, err, LC);
    if(!M) { err.print("symex", errs()); return 3; }
    DL = &M->getDataLayout();
    State *s0 = new State();
    // addresses
    for(auto &F : *M)
    {
        if(F.isIntrinsic()) continue;
        KFunction *k = new KFunction(); k->F = &F; k->name = F.getName().str(); k->pretty = demangle(k->name);
        k->native = F.isDeclaration() || nativeIx.count(k->name) ? nativeId(k->name) : -1;
        k->objId = s0->mem.alloc(1, FUNC);
        kfs[&F] = k; fnById[k->objId] = k; gaddr[&F] = k->objId << OBJ_SHIFT;
    }
    for(auto &G : M->globals())
    {
        if(G.getName().starts_with("llvm.")) { gaddr[&G] = 0; continue; }
        uint64_t n = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
        if(G.isDeclaration()) n = std::max<uint64_t>(n, 256);
        uint64_t id = s0->mem.alloc(n, GLOBAL);
        gaddr[&G] = id << OBJ_SHIFT; gvById[id] = &G;
        if(G.isThreadLocal()) s0->mem.getw(id)->priv = true;
    }
    for(auto &G : M->globals()) if(G.hasInitializer() && !G.getName().starts_with("llvm.")) { uint64_t id = gaddr[&G] >> OBJ_SHIFT; initGlobal(*s0, id, 0, G.getInitializer()); if(G.isConstant()) s0->mem.getw(id)->ro = true; }
    for(auto &G : M->globals()) if(G.isThreadLocal()) { uint64_t id = gaddr[&G] >> OBJ_SHIFT; tlsInit.push_back({id, new Obj(*s0->mem.get(id))}); }
    // run constructors, then main, as one path: a synthetic stack is built in reverse order
    std::vector<KFunction*> seq;
    if(auto *gc = M->getNamedGlobal("llvm.global_ctors"))
        if(auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        {
            std::vector<std::pair<uint64_t, KFunction*>> cs;
            for(auto &op : ca->operands()) { auto *st = cast<ConstantStruct>(op); if(auto *fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), kf(fn)}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
            for(auto &c : cs) seq.push_back(c.second);
        }
    Function *mainF = M->getFunction("main");
    if(!mainF) { errs() << "no main\n"; return 3; }
    // constructors must be deterministic: executed one after another in the initial state
    bool early = M->getNamedGlobal("frv_early") != nullptr;      // unless the harness has inputs in one
    if(early)
    {
        pushFrame(*s0, kf(mainF), {});
        for(auto i = seq.rbegin(); i != seq.rend(); ++i) { pushFrame(*s0, *i, {}); s0->st.back().noRet = true; }
    }
    else for(auto *c : seq)
    {
        pushFrame(*s0, c, {});
        try { for(;;) { if(s0->st.size() == 1) { Frame &f = s0->st.back(); if(f.fn->ins[f.pc].opc == Instruction::Ret) { popFrame(*s0); break; } } step(*s0); } }
        catch(Kill &) { errs() << "global constructor failed: " << c->pretty << "\n"; for(auto &p : incompl) errs() << "  " << p.first << "\n"; for(auto &v : viols) errs() << v.msg << " " << v.where << "\n"; return 3; }
    }
    s0->steps = 0;
    if(!early) pushFrame(*s0, kf(mainF), {});
    work.push_back(s0);
    // breadth first until there is enough work, then depth first (in parallel)
    size_t target = optJobs > 1 ? optJobs * 512 : 0;
    while(!work.empty() && !stopAll && (target && work.size() < target) && !((nowS() - tStart > 4 && work.size() >= optJobs) || (nowS() - tStart > 1.5 && work.size() >= optJobs * 48)))
    {
        State *s = work.front(); work.pop_front();
        // run until it forks or ends
        size_t before = work.size(); bool ended = false; cur = s;
        try
        {
            uint64_t n = 0;
            while(work.size() == before) { step(*s); if(s->steps - s->stepMark > optMaxSteps) fault(*s, "nontermination", "path exceeds " + std::to_string(optMaxSteps) + " instructions"); if((++n & 0x3fff) == 0 && timeUp()) { incompl["time limit"]++; stopAll = true; break; } }
        }
        catch(Kill &) { ended = true; }
        if(ended) { delete s; unsigned n = 0; for(auto &v : viols) if(!v.known) n++; if(n >= optMaxViol) stopAll = true; }
        else work.push_back(s);
        if(timeUp()) { stopAll = true; incompl["time limit"]++; }
    }
    if(optJobs > 1 && !work.empty() && !stopAll)
    {
        auto *next = (std::atomic<uint64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        auto *stopFlag = next + 1;
        std::vector<State*> all(work.begin(), work.end()); work.clear();
        std::vector<pid_t> kids; std::vector<uint64_t> order(all.size()); for(size_t i = 0; i < order.size(); i++) order[i] = i;
        std::shuffle(order.begin(), order.end(), rng);
        for(unsigned j = 0; j < optJobs; j++)
        {
            pid_t p = fork();
            if(p == 0)
            {
                nPaths = nKilled = nForks = nStates = nInstr = nObl = nOblSym = nUnknown = nOblUnknown = 0; S.st = SolverStats(); reachCnt.clear(); incompl.clear(); checksDone.clear(); viols.clear(); samples.clear(); sampleSeen = 0; rng.seed(optSeed * 1000 + j);
                uint64_t left = 0;
                for(;;)
                {
                    uint64_t i = (*next)++;
                    if(i >= all.size()) break;
                    if(stopFlag->load() || timeUp()) { left++; if(timeUp()) incompl["time limit"]++; continue; }
                    work.push_back(all[order[i]]);
                    while(!work.empty())
                    {
                        if(timeUp() || stopFlag->load() || stopAll) { if(timeUp() && !stopAll) incompl["time limit"]++; left += work.size(); work.clear(); break; }
                        State *s = work.back(); work.pop_back();
                        runOne(s);
                        if(stopAll) stopFlag->store(1);
                    }
                }
                dumpJson(optOut + "." + std::to_string(j), left);
                _exit(0);
            }
            kids.push_back(p);
        }
        int bad = 0;
        for(auto p : kids) { int st; waitpid(p, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
        if(bad) incompl["worker process failed"] += bad;
        dumpJson(optOut, 0);
        return 0;
    }
    while(!work.empty() && !stopAll)
    {
        if(timeUp()) { incompl["time limit"]++; break; }
        State *s = work.back(); work.pop_back();
        runOne(s);
    }
    dumpJson(optOut, work.size());
    return 0;
}
