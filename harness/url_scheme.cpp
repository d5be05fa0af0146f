// Schemes of URLs: names, conversions and ports
#include <frnetlib/URL.h>
#include <stdexcept>
#include "sym.h"
static unsigned char low(unsigned char c) { return (unsigned char)sym_ite((c >= 'A') & (c <= 'Z'), (unsigned char)(c + 32), c); }
int main()
{
    static const struct { const char *name; fr::URL::Scheme s; const char *port; } known[] = {
        {"http", fr::URL::HTTP, "80"}, {"https", fr::URL::HTTPS, "443"}, {"ftp", fr::URL::FTP, "21"}, {"mailto", fr::URL::MAILTO, ""}, {"irc", fr::URL::IRC, "6697"}, {"sftp", fr::URL::SFTP, "22"}};
    if(sym_choose(2, "direction"))
    {
        std::string s = sym_string(sym_choose(sym_param("N", 7) + 1, "len"), "name");
        unsigned want = 6;
        for(unsigned i = 0; i < 6; i++)
        {
            std::string n = known[i].name;
            if(n.size() != s.size()) continue;
            bool eq = true;
            for(size_t j = 0; j < n.size(); j++) eq &= low(s[j]) == (unsigned char)n[j];
            want = (unsigned)sym_ite(eq, i, want);
        }
        fr::URL::Scheme got = fr::URL::string_to_scheme(s);
        sym_observe("scheme", got);
        static const unsigned char value[] = {fr::URL::HTTP, fr::URL::HTTPS, fr::URL::FTP, fr::URL::MAILTO, fr::URL::IRC, fr::URL::SFTP, fr::URL::Unknown};
        sym_check(got == value[want], "a name in any case gives its scheme, anything else Unknown");
        if(got != fr::URL::Unknown) sym_reach("known");
        // the name, in any case, in an URL
        bool plain = true;
        for(char c : s) plain &= (c != '/') & (c != '?') & (c != '#') & (c != ':');
        if(!plain) return 0;
        fr::URL u(s + "://h/p");
        sym_check(u.get_scheme() == got && u.get_host() == "h" && u.get_path() == "/p", "an URL has the same scheme");
        const char *port = "";
        for(unsigned i = 0; i < 6; i++) if(known[i].s == got) port = known[i].port;
        sym_check(u.get_port() == port, "the port which belongs to the scheme");
    }
    else
    {
        uint32_t v = sym_val<uint32_t>("value");
        std::string s; bool threw = false;
        try { s = fr::URL::scheme_to_string((fr::URL::Scheme)v); } catch(const std::logic_error &) { threw = true; }
        sym_check(threw == (v > 6), "only values which aren't a scheme are rejected");
        if(threw) { sym_reach("rejected"); return 0; }
        sym_check(fr::URL::string_to_scheme(s) == (fr::URL::Scheme)v, "a scheme can be turned into a string and back");
        if(v < 6) for(unsigned i = 0; i < 6; i++) if(known[i].s == (fr::URL::Scheme)v) sym_check(s == known[i].name, "name");
        sym_reach("string");
    }
    sym_reach("done");
    return 0;
}
