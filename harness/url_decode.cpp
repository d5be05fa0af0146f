// url_decode on arbitrary text, against a reference
#include <frnetlib/Http.h>
#include "sym.h"
static int hexv(unsigned char c) { if(c >= '0' && c <= '9') return c - '0'; if(c >= 'a' && c <= 'f') return c - 'a' + 10; if(c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
int main()
{
    size_t n = sym_choose(sym_param("N", 4) + 1, "len");
    std::string s = sym_string(n, "text");
    if(sym_param("LONG", 0))
    {
        std::string all;
        static const char hex[] = "0123456789abcdefABCDEF";
        for(unsigned i = 0; i < sym_param("LONG", 0); i++) { all += '%'; all += hex[i % 22]; all += hex[i * 5 % 22]; if(i % 3 == 0) all += (char)(i * 7); }
        s = sym_choose(2, "end") ? all + s : s + all;
        n = s.size();
    }
    std::string d = fr::Http::url_decode(s);
    sym_observe_str("dec", d);
    std::string r;
    for(size_t i = 0; i < n; i++)
    {
        if(s[i] == '%' && i + 2 < n && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { r += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; sym_reach("escape"); }
        else if(s[i] == '+') r += ' ';
        else r += s[i];
    }
    sym_check(same_str(d, r), "url_decode equals the reference decoder");
    sym_reach("done");
    return 0;
}
