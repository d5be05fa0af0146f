// Interface between harnesses and the symbolic engine (or the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C"
{
    void sym_make(void *p, size_t n, const char *name);               // n arbitrary bytes
    uint32_t sym_choose(uint32_t n, const char *name);                // 0..n-1, explored one by one
    void sym_assume(int c);
    void sym_check(int c, const char *msg);                           // property obligation
    void sym_check_known(int c, const char *msg, const char *id);     // obligation with a known finding
    [[noreturn]] void sym_fail(const char *msg);
    void sym_reach(const char *tag);                                  // non-vacuity witness
    uint32_t sym_param(const char *name, uint32_t def);               // bound given by the driver
    void sym_observe(const char *name, uint64_t v);
    void sym_observe_bytes(const char *name, const void *p, size_t n);
    void sym_alloc_limit(uint64_t n, int violates);
    uint64_t sym_concretize(uint64_t v);
    uint64_t sym_ite(int c, uint64_t a, uint64_t b);
    void sym_steps_reset(void);
    [[noreturn]] void sym_kill(void);
    void sym_private(const void *p);                                  // the object isn't looked at for data races
    void sym_threads(void (*a)(void*), void *pa, void (*b)(void*), void *pb);   // a(pa) and b(pb), in two threads; they may not ask for inputs
}
#ifdef __cplusplus
#include <string>
static inline std::string sym_string(size_t n, const char *name) { std::string s(n, '\0'); sym_make(&s[0], n, name); return s; }
template<typename T> static inline T sym_val(const char *name) { T t; sym_make(&t, sizeof(t), name); return t; }
static inline void sym_observe_str(const char *name, const std::string &s) { sym_observe_bytes(name, s.data(), s.size()); }
// equality without branching on the contents
static inline bool same_bytes(const void *a, const void *b, size_t n)
{
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    bool r = true;
    for(size_t i = 0; i < n; i++) r &= x[i] == y[i];
    return r;
}
static inline bool same_str(const std::string &a, const std::string &b) { if(a.size() != b.size()) return false; return same_bytes(a.data(), b.data(), a.size()); }
// 1..n: every value, or for large n the interesting ones
static inline size_t sym_cut(size_t n, const char *name)
{
    if(n <= 160) return 1 + sym_choose((uint32_t)n, name);
    const size_t c[] = {n, n - 1, n / 2, 2, 1, n > 4096 ? (size_t)4096 : 128};
    return c[sym_choose(6, name)];
}
#endif
