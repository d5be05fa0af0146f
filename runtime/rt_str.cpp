// Replacements for std::string search members: one branch per candidate position.
#include <string>
typedef std::string Str;
#define N(x) asm("_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE" x)
extern "C" size_t frv_find(const Str *t, const char *s, size_t pos, size_t n) N("4findEPKcmm");
extern "C" size_t frv_find(const Str *t, const char *s, size_t pos, size_t n)
{
    const size_t sz = t->size();
    if(n == 0) return pos <= sz ? pos : Str::npos;
    if(n > sz) return Str::npos;
    const char *d = t->data();
    for(; pos <= sz - n; pos++) if(__builtin_memcmp(d + pos, s, n) == 0) return pos;
    return Str::npos;
}
extern "C" size_t frv_findc(const Str *t, char c, size_t pos) N("4findEcm");
extern "C" size_t frv_findc(const Str *t, char c, size_t pos)
{
    const size_t sz = t->size(); const char *d = t->data();
    for(; pos < sz; pos++) if(d[pos] == c) return pos;
    return Str::npos;
}
extern "C" size_t frv_rfind(const Str *t, const char *s, size_t pos, size_t n) N("5rfindEPKcmm");
extern "C" size_t frv_rfind(const Str *t, const char *s, size_t pos, size_t n)
{
    const size_t sz = t->size();
    if(n > sz) return Str::npos;
    if(pos > sz - n) pos = sz - n;
    const char *d = t->data();
    do { if(__builtin_memcmp(d + pos, s, n) == 0) return pos; } while(pos-- > 0);
    return Str::npos;
}
