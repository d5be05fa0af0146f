// url_encode / url_decode: round trip and alphabet of the encoded form
#include <frnetlib/Http.h>
#include "sym.h"
int main()
{
    size_t n = sym_choose(sym_param("N", 3) + 1, "len");
    std::string s = sym_string(n, "text");
    if(sym_param("LONG", 0))
    {
        std::string all;
        for(unsigned i = 0; i < sym_param("LONG", 0); i++) all += (char)(i * 7);
        s = sym_choose(2, "end") ? all + s : s + all;
        n = s.size();
    }
    std::string e = fr::Http::url_encode(s);
    sym_observe_str("enc", e);
    // every byte of the result is from the safe alphabet, and escapes are complete
    size_t i = 0, k = 0;
    auto plain = [](unsigned char c) { return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c == '-') | (c == '_') | (c == '.') | (c == '!') | (c == '~') | (c == '*') | (c == '\'') | (c == '(') | (c == ')'); };
    auto hex = [](unsigned char c) { return (c >= '0' && c <= '9') | (c >= 'A' && c <= 'F'); };
    while(i < e.size())
    {
        if(e[i] == '%') { sym_check(i + 2 < e.size(), "escape is complete"); sym_check(hex(e[i + 1]) & hex(e[i + 2]), "escape is two upper case hex digits"); i += 3; }
        else { sym_check(plain(e[i]) | (e[i] == '+'), "encoded text only has safe characters"); i++; }
        k++;
    }
    sym_check(k == n, "one unit per input byte");
    std::string d = fr::Http::url_decode(e);
    sym_check(same_str(d, s), "url_decode(url_encode(s)) == s");
    sym_reach("done");
    return 0;
}
