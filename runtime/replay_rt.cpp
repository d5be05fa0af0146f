// Native implementation of sym.h: inputs come from a replay file (environment FRV_REPLAY), observations
// are printed, a failed obligation ends the process with status 99.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <thread>
#include <new>
#include <unistd.h>

namespace
{
    struct Ev { char k; std::string name; std::vector<unsigned char> b; unsigned long v; };
    // initialised before the globals of the harness
#define FIRST __attribute__((init_priority(101)))
    std::vector<Ev> evs FIRST; size_t pos = 0; std::map<std::string, unsigned long> par FIRST; bool loaded = false;
    size_t alim = 0; int aviol = 0;
    void die(const char *what, const char *msg, int code) { fflush(stdout); fprintf(stderr, "FRV %s: %s\n", what, msg); fflush(stderr); _exit(code); }
    void load()
    {
        if(loaded) return;
        loaded = true;
        const char *f = getenv("FRV_REPLAY");
        FILE *fp = f ? fopen(f, "r") : nullptr;
        if(!fp) die("error", "no replay file", 97);
        char *line = nullptr; size_t cap = 0;
        while(getline(&line, &cap, fp) > 0)
        {
            char *sv, *k = strtok_r(line, " \n", &sv); if(!k) continue;
            char *n = strtok_r(nullptr, " \n", &sv), *a = strtok_r(nullptr, " \n", &sv), *b = strtok_r(nullptr, " \n", &sv);
            if(*k == 'P') par[n] = strtoul(a, 0, 10);
            else if(*k == 'C') evs.push_back(Ev{'C', n, {}, strtoul(a, 0, 10)});
            else if(*k == 'M') { Ev e{'M', n, {}, strtoul(a, 0, 10)}; for(size_t i = 0; i < e.v; i++) { unsigned x; sscanf(b + 2 * i, "%2x", &x); e.b.push_back(x); } evs.push_back(e); }
        }
        free(line); fclose(fp);
    }
    Ev &next(char k, const char *name_)
    {
        std::string name(name_);
        for(auto &ch : name) if(ch == ' ') ch = '_';
        load();
        if(pos >= evs.size()) die("desync", name_, 98);
        Ev &e = evs[pos++];
        if(e.k != k || e.name != name) die("desync", name_, 98);
        return e;
    }
}
extern "C"
{
    void sym_make(void *p, size_t n, const char *name) { Ev &e = next('M', name); if(e.b.size() != n) die("desync", name, 98); if(n) memcpy(p, e.b.data(), n); }
    uint32_t sym_choose(uint32_t n, const char *name) { if(n == 0) _exit(96); Ev &e = next('C', name); return e.v; }
    void sym_assume(int c) { if(!c) die("assumption", "violated", 96); }
    void sym_check(int c, const char *msg) { if(!c) die("CHECK FAILED", msg, 99); }
    void sym_check_known(int c, const char *msg, const char *) { if(!c) die("CHECK FAILED", msg, 99); }
    void sym_fail(const char *msg) { die("CHECK FAILED", msg, 99); abort(); }
    void sym_reach(const char *) {}
    uint32_t sym_param(const char *name, uint32_t def) { load(); auto it = par.find(name); return it == par.end() ? def : it->second; }
    void sym_observe(const char *name, uint64_t v) { printf("%s %llu\n", name, (unsigned long long)v); }
    void sym_observe_bytes(const char *name, const void *p, size_t n) { printf("%s ", name); for(size_t i = 0; i < n; i++) printf("%02x", ((const unsigned char*)p)[i]); if(!n) printf("-"); printf("\n"); }
    void sym_alloc_limit(uint64_t n, int v) { alim = n; aviol = v; }
    uint64_t sym_concretize(uint64_t v) { return v; }
    uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
    void sym_steps_reset(void) {}
    void sym_private(const void *) {}
    void sym_threads(void (*a)(void*), void *pa, void (*b)(void*), void *pb) { std::thread x(a, pa), y(b, pb); x.join(); y.join(); }
    void sym_kill(void) { die("assumption", "killed", 96); abort(); }
}
static void *na(size_t n)
{
    size_t lim = alim ? alim : (size_t)1 << 24;
    if(n > lim) { if(alim && aviol) die("CHECK FAILED", "allocation exceeds the limit", 99); throw std::bad_alloc(); }
    void *p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return na(n); }
void *operator new[](size_t n) { return na(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
