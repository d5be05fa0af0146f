// Runtime for the symbolic engine: the parts of libstdc++/libc that the code under test calls and
// that are not available as bitcode. Compiled to bitcode and linked with harness and sources.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <vector>
#include <map>
#include <list>
#include <set>
#include <unordered_map>
#include <memory>
#include <random>
#include <chrono>
#include <cstdarg>
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <thread>
#include <condition_variable>
#include <system_error>
#include "frv_ios.h"

namespace std
{
    template class basic_string<char>;
    ostream cout, cerr, clog;
    istream cin;

    // exceptions
    static char *frv_dup(const char *s, size_t n) { char *p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
    __cow_string::__cow_string() { _M_p = frv_dup("", 0); }
    __cow_string::__cow_string(const std::string &s) { _M_p = frv_dup(s.data(), s.size()); }
    __cow_string::__cow_string(const char *s, size_t n) { _M_p = frv_dup(s, n); }
    __cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = frv_dup(o._M_p, strlen(o._M_p)); }
    __cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if(this != &o) { free((void*)_M_p); _M_p = frv_dup(o._M_p, strlen(o._M_p)); } return *this; }
    __cow_string::~__cow_string() { free((void*)_M_p); }
    __cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = frv_dup(o._M_p, strlen(o._M_p)); }
    __cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string&)o; }

    exception::~exception() noexcept {}
    const char *exception::what() const noexcept { return "std::exception"; }
    bad_exception::~bad_exception() noexcept {}
    const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
    bad_alloc::~bad_alloc() noexcept {}
    const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {}
    const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {}
    const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
    bad_typeid::~bad_typeid() noexcept {}
    const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
    bad_function_call::~bad_function_call() noexcept {}
    const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
    bad_weak_ptr::~bad_weak_ptr() noexcept {}
    const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

#define EXC(cls, base) \
    cls::cls(const string &s) : base(s) {} \
    cls::cls(const char *s) : base(s) {} \
    cls::~cls() noexcept {}
#define EXCR(cls, base) \
    cls::cls(const string &s) : base(s) {} \
    cls::cls(const char *s) : base(s) {} \
    cls::~cls() noexcept {}
    logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
    logic_error::logic_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
    logic_error::logic_error(const logic_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
    logic_error::logic_error(logic_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
    logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
    logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
    logic_error::~logic_error() noexcept {}
    const char *logic_error::what() const noexcept { return *(const char* const*)&_M_msg; }
    runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
    runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
    runtime_error::runtime_error(const runtime_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
    runtime_error::runtime_error(runtime_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
    runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
    runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
    runtime_error::~runtime_error() noexcept {}
    const char *runtime_error::what() const noexcept { return *(const char* const*)&_M_msg; }
    EXC(domain_error, logic_error)
    EXC(invalid_argument, logic_error)
    EXC(length_error, logic_error)
    EXC(out_of_range, logic_error)
    EXCR(range_error, runtime_error)
    EXCR(overflow_error, runtime_error)
    EXCR(underflow_error, runtime_error)
    system_error::~system_error() noexcept {}

    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_cast() { throw bad_cast(); }
    void __throw_bad_typeid() { throw bad_typeid(); }
    void __throw_bad_exception() { throw bad_exception(); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_logic_error(const char *s) { throw logic_error(s); }
    void __throw_domain_error(const char *s) { throw domain_error(s); }
    void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
    void __throw_length_error(const char *s) { throw length_error(s); }
    void __throw_out_of_range(const char *s) { throw out_of_range(s); }
    void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
    void __throw_runtime_error(const char *s) { throw runtime_error(s); }
    void __throw_range_error(const char *s) { throw range_error(s); }
    void __throw_overflow_error(const char *s) { throw overflow_error(s); }
    void __throw_system_error(int) { throw runtime_error("system_error"); }

    // unordered containers: one hash per length, never rehash
    size_t _Hash_bytes(const void *, size_t n, size_t) { return n; }
    size_t _Fnv_hash_bytes(const void *, size_t n, size_t) { return n; }
    namespace __detail
    {
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = (size_t)-1; return n < 1 ? 1 : (n > 13 ? 13 : n); }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
    }
    // ordered containers: plain (unbalanced) binary search tree
    _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
    {
        if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; return x; }
        _Rb_tree_node_base *y = x->_M_parent;
        while(x == y->_M_right) { x = y; y = y->_M_parent; }
        if(x->_M_right != y) x = y;
        return x;
    }
    const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
    {
        if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if(x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while(y->_M_right) y = y->_M_right; return y; }
        _Rb_tree_node_base *y = x->_M_parent;
        while(x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw()
    {
        x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
        if(left)
        {
            p->_M_left = x;
            if(p == &h) { h._M_parent = x; h._M_right = x; }
            else if(p == h._M_left) h._M_left = x;
        }
        else { p->_M_right = x; if(p == h._M_right) h._M_right = x; }
    }
    _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw()
    {
        auto replace = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) {
            if(h._M_parent == u) h._M_parent = v; else if(u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v;
            if(v) v->_M_parent = u->_M_parent;
        };
        if(!z->_M_left) replace(z, z->_M_right);
        else if(!z->_M_right) replace(z, z->_M_left);
        else
        {
            _Rb_tree_node_base *y = z->_M_right; while(y->_M_left) y = y->_M_left;
            if(y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
            replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
        }
        _Rb_tree_node_base *r = h._M_parent;
        if(!r) { h._M_left = h._M_right = &h; }
        else { _Rb_tree_node_base *l = r; while(l->_M_left) l = l->_M_left; h._M_left = l; while(r->_M_right) r = r->_M_right; h._M_right = r; }
        return z;
    }
    namespace __detail
    {
        void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
    }
    namespace chrono { inline namespace _V2 {
        system_clock::time_point system_clock::now() noexcept { return time_point(duration(1600000000000000000ll)); }
        steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000ll)); }
    } }
    random_device::result_type random_device::_M_getval() { return 0x12345678; }
    void random_device::_M_init(const std::string&) {}
    void random_device::_M_fini() {}
}

extern "C" void __sym_throw_bad_alloc() { throw std::bad_alloc(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
const std::nothrow_t std::nothrow{};

// std::call_once
namespace std { __thread void *__once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(int *o, void (*f)())
{
    if(__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2) return 0;
    f();
    __atomic_store_n(o, 2, __ATOMIC_RELEASE);
    return 0;
}
extern "C"
{
    char __libc_single_threaded = 1;
    void sym_thread(int n);
    void sym_threads(void (*a)(void*), void *pa, void (*b)(void*), void *pb)
    {
        __libc_single_threaded = 0;
        sym_thread(1); a(pa); sym_thread(2); b(pb); sym_thread(0);
    }
    static thread_local int frv_errno;
    int *__errno_location() noexcept { return &frv_errno; }
    time_t time(time_t *t) noexcept { if(t) *t = 1600000000; return 1600000000; }
    static thread_local unsigned frv_seed = 1;
    void srand(unsigned s) noexcept { frv_seed = s; }
    int rand() noexcept { frv_seed = frv_seed * 1103515245u + 12345u; return (frv_seed >> 1) & 0x7fffffff; }
    size_t strlen(const char *s) { size_t n = 0; while(s[n]) n++; return n; }
    size_t strnlen(const char *s, size_t m) { size_t n = 0; while(n < m && s[n]) n++; return n; }
    int strcmp(const char *a, const char *b) { while(*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
    int strncmp(const char *a, const char *b, size_t n) { for(; n; n--, a++, b++) { if(*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if(!*a) return 0; } return 0; }
    int tolower(int c) { return (unsigned)c - 'A' < 26u ? c + 32 : c; }
    int toupper(int c) { return (unsigned)c - 'a' < 26u ? c - 32 : c; }
    int isdigit(int c) { return (unsigned)c - '0' < 10u; }
    int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26u; }
    int isalnum(int c) { return ((unsigned)c - '0' < 10u) | (((unsigned)c | 32) - 'a' < 26u); }
    int isxdigit(int c) { return ((unsigned)c - '0' < 10u) | (((unsigned)c | 32) - 'a' < 6u); }
    int isupper(int c) { return (unsigned)c - 'A' < 26u; }
    int islower(int c) { return (unsigned)c - 'a' < 26u; }
    int isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5u); }
    int isblank(int c) { return (c == ' ') | (c == 9); }
    int isprint(int c) { return (unsigned)c - 32 < 95u; }
    int isgraph(int c) { return (unsigned)c - 33 < 94u; }
    int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
    int ispunct(int c) { return isgraph(c) & !isalnum(c); }
    int strcasecmp(const char *a, const char *b) { for(;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if(x != y) return x - y; if(!x) return 0; } }
    int strncasecmp(const char *a, const char *b, size_t n) { for(; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if(x != y) return x - y; if(!x) return 0; } return 0; }
    char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while(s[i++]); return d; }
    char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
    char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
    char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char*)malloc(n); memcpy(p, s, n); return p; }

    static unsigned long long frv_strto(const char *s, char **end, int base, bool sgn, int bits)
    {
        const char *p = s; while(isspace((unsigned char)*p)) p++;
        bool neg = false; if(*p == '-' || *p == '+') { neg = *p == '-'; p++; }
        if((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
        else if(base == 0) base = *p == '0' ? 8 : 10;
        unsigned long long v = 0; bool any = false, over = false;
        const unsigned long long lim = !sgn ? (bits == 64 ? ~0ull : (1ull << bits) - 1) : neg ? 1ull << (bits - 1) : (1ull << (bits - 1)) - 1;
        const unsigned long long cut = lim / (unsigned)base, cutd = lim % (unsigned)base;
        for(;; p++)
        {
            unsigned c = (unsigned char)*p, d;
            if(c - '0' < 10u) d = c - '0'; else if((c | 32) - 'a' < 26u) d = (c | 32) - 'a' + 10; else break;
            if((int)d >= base) break;
            any = true;
            if(!over) { if((v > cut) | ((v == cut) & (d > cutd))) over = true; else v = v * base + d; }
        }
        if(end) *end = const_cast<char*>(any ? p : s);
        if(over) { frv_errno = ERANGE; return sgn && neg ? 0 - lim : lim; }
        return neg ? 0 - v : v;
    }
#define STRTO(n, T, sg) T frv_##n(const char *s, char **e, int base) asm(#n); T frv_##n(const char *s, char **e, int base) { return (T)frv_strto(s, e, base, sg, 64); }
#undef strtol
#undef strtoul
#undef strtoll
#undef strtoull
    STRTO(strtol, long, true) STRTO(strtoul, unsigned long, false) STRTO(strtoll, long long, true) STRTO(strtoull, unsigned long long, false)
    STRTO(__isoc23_strtol, long, true) STRTO(__isoc23_strtoul, unsigned long, false) STRTO(__isoc23_strtoll, long long, true) STRTO(__isoc23_strtoull, unsigned long long, false)

    int vsnprintf(char *o, size_t n, const char *f, va_list ap) noexcept
    {
        size_t k = 0; auto put = [&](char c) { if(k + 1 < n) o[k] = c; k++; };
        for(; *f; f++)
        {
            if(*f != '%') { put(*f); continue; }
            f++; bool zero = false, left = false; int width = 0, prec = -1, lng = 0;
            for(;; f++) { if(*f == '0') zero = true; else if(*f == '-') left = true; else if(*f == '+' || *f == ' ' || *f == '#') ; else break; }
            if(*f == '*') { width = va_arg(ap, int); f++; } else while(*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
            if(*f == '.') { f++; prec = 0; if(*f == '*') { prec = va_arg(ap, int); f++; } else while(*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
            int hh = 0;
            for(;; f++) { if(*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 1; else if(*f == 'h') hh++; else break; }
            char buf[72]; int i = 72; const char *s = nullptr; size_t len = 0;
            if(*f == 's') { s = va_arg(ap, const char*); len = strlen(s); if(prec >= 0 && len > (size_t)prec) len = prec; zero = false; }
            else if(*f == 'c') { buf[71] = (char)va_arg(ap, int); s = buf + 71; len = 1; zero = false; }
            else if(*f == '%') { put('%'); continue; }
            else if(*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'o' || *f == 'p')
            {
                bool neg = false; unsigned long long v; unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
                if(*f == 'p') lng = 1;
                if(*f == 'd' || *f == 'i') { long long sv = lng ? va_arg(ap, long) : va_arg(ap, int); if(hh == 2) sv = (signed char)sv; else if(hh == 1) sv = (short)sv; neg = sv < 0; v = neg ? 0 - (unsigned long long)sv : sv; }
                else { v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if(hh == 2) v &= 255; else if(hh == 1) v &= 65535; }
                do { unsigned d = v % base; buf[--i] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while(v);
                while(prec > 72 - i && i > 2) buf[--i] = '0';
                if(zero && !left) while(72 - i + (neg ? 1 : 0) < width && i > 2) buf[--i] = '0';
                if(neg) buf[--i] = '-';
                s = buf + i; len = 72 - i;
            }
            else { put('?'); continue; }
            size_t pad = (size_t)width > len ? width - len : 0;
            if(!left) while(pad--) put(' ');
            for(size_t q = 0; q < len; q++) put(s[q]);
            if(left) while(pad != (size_t)-1 && pad--) put(' ');
        }
        if(n) o[k < n ? k : n - 1] = 0;
        return (int)k;
    }
    int snprintf(char *o, size_t n, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(o, n, f, ap); va_end(ap); return r; }
    int sprintf(char *o, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(o, (size_t)1 << 20, f, ap); va_end(ap); return r; }
    __attribute__((weak)) char *strerror(int) noexcept { static char m[] = "error"; return m; }
    int usleep(unsigned) { return 0; }
    int nanosleep(const struct timespec *, struct timespec *) { return 0; }
    int sched_yield() noexcept { return 0; }
    int *__gthrw_dummy = nullptr;
}
// non-overloaded C++ forms of the const-correct string functions
extern "C" void *frv_memchr(const void *s, int c, size_t n) asm("memchr");
extern "C" void *frv_memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char*)s; for(size_t i = 0; i < n; i++) if(p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
extern "C" char *frv_strchr(const char *s, int c) asm("strchr");
extern "C" char *frv_strchr(const char *s, int c) { for(;; s++) { if(*s == (char)c) return (char*)s; if(!*s) return nullptr; } }
extern "C" char *frv_strrchr(const char *s, int c) asm("strrchr");
extern "C" char *frv_strrchr(const char *s, int c) { const char *r = nullptr; for(;; s++) { if(*s == (char)c) r = s; if(!*s) return (char*)r; } }
extern "C" char *frv_strstr(const char *h, const char *n) asm("strstr");
extern "C" char *frv_strstr(const char *h, const char *n) { size_t k = strlen(n); for(;; h++) { if(strncmp(h, n, k) == 0) return (char*)h; if(!*h) return nullptr; } }

// system calls a harness without a model of the kernel may reach
extern "C"
{
    __attribute__((weak)) void (*signal(int, void (*)(int)))(int) { return nullptr; }
}
