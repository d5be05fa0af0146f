// Base64::encode against RFC 4648
#include <frnetlib/Base64.h>
#include "sym.h"
static unsigned char b64(uint32_t v)
{
    uint64_t c = sym_ite(v < 26, 'A' + v, sym_ite(v < 52, 'a' + v - 26, sym_ite(v < 62, '0' + v - 52, sym_ite(v == 62, '+', '/'))));
    return (unsigned char)c;
}
int main()
{
    size_t n = sym_param("LO", 0) + sym_choose(sym_param("N", 7) + 1, "len");
    std::string s = sym_string(n, "data");
    std::string e = fr::Base64::encode(s);
    sym_observe_str("enc", e);
    sym_check(e.size() == (n + 2) / 3 * 4, "length is four characters per started group of three bytes");
    for(size_t i = 0; i < n; i += 3)
    {
        bool ok = true;
        uint32_t a = (unsigned char)s[i], b = i + 1 < n ? (unsigned char)s[i + 1] : 0, c = i + 2 < n ? (unsigned char)s[i + 2] : 0, w = a << 16 | b << 8 | c;
        size_t o = i / 3 * 4;
        ok &= (unsigned char)e[o] == b64(w >> 18);
        ok &= (unsigned char)e[o + 1] == b64(w >> 12 & 63);
        ok &= (unsigned char)e[o + 2] == (i + 1 < n ? b64(w >> 6 & 63) : '=');
        ok &= (unsigned char)e[o + 3] == (i + 2 < n ? b64(w & 63) : '=');
        sym_check(ok, "every character is the one RFC 4648 prescribes");
    }
    if(n % 3 == 0) sym_reach("full"); else if(n % 3 == 1) sym_reach("one"); else sym_reach("two");
    return 0;
}
