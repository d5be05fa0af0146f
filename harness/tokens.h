#pragma once
#include "sym.h"
static inline bool among(const char *set, unsigned char c) { bool r = false; for(; *set; set++) r |= (unsigned char)*set == c; return r; }
static inline unsigned char lower(unsigned char c) { return (unsigned char)sym_ite((c >= 'A') & (c <= 'Z'), (unsigned char)(c + 32), c); }
static inline std::string lower(std::string s) { for(auto &c : s) c = (char)lower((unsigned char)c); return s; }
// makes what isn't empty long, with the arbitrary characters at both ends of it
static inline void pad(std::string &s) { if(!s.empty()) s.insert(s.size() / 2, sym_param("PAD", 0), 'q'); }
// printable characters, except for those in 'no'
static inline std::string token(unsigned lo, unsigned hi, const char *no, const char *name, bool any = false)
{
    std::string s = sym_string(hi > lo ? lo + sym_choose(hi - lo + 1, name) : lo, name);
    bool ok = true;
    for(unsigned char c : s) ok &= (any | ((c > 32) & (c < 127))) & !among(no, c);
    sym_assume(ok);
    pad(s);
    return s;
}
// MANY further concrete entries
static inline std::string many_name(unsigned i) { return "extra-name-" + std::to_string(i); }
static inline std::string many_value(unsigned i) { return "value" + std::to_string(i * 7); }
// the characters a HTTP method or header name is made of (RFC 7230)
#define NAME_EXCEPT "(),/:;<=>?@[\\]{}\""
// HTTP-version = "HTTP/" DIGIT "." DIGIT: the common one, or any
static inline std::string http_version(bool any)
{
    std::string v = "HTTP/1.1";
    if(any && sym_choose(2, "other version")) { sym_make(&v[5], 1, "major"); sym_make(&v[7], 1, "minor"); sym_assume((v[5] >= '0') & (v[5] <= '9') & (v[7] >= '0') & (v[7] <= '9')); }
    return v;
}
static inline bool is_http_1_0(const std::string &v) { return (v[5] == '1') & (v[7] == '0'); }
// the whitespace around a header's value
static inline std::string ows(unsigned hi, const char *name)
{
    std::string s = sym_string(sym_choose(hi + 1, name), name);
    for(unsigned char c : s) sym_assume((c == ' ') | (c == '\t'));
    return s;
}
// what a header's value or a reason phrase consists of: whitespace inside, but not at its ends
static inline std::string text(unsigned lo, unsigned hi, const char *name)
{
    std::string s = sym_string(hi > lo ? lo + sym_choose(hi - lo + 1, name) : lo, name);
    bool ok = true;
    for(size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; ok &= ((c > 32) & (c != 127)) | (((c == 32) | (c == 9)) & (i != 0) & (i + 1 != s.size())); }
    sym_assume(ok);
    pad(s);
    return s;
}
