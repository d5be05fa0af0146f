// URL::parse on arbitrary text: nothing throws, and putting it together again doesn't change it
#include <frnetlib/URL.h>
#include "sym.h"
int main()
{
    static const char *before[] = {"", "http://", "h:1"};
    static const char *after[] = {"", "/a?b#c", "://d:2"};
    unsigned b = sym_choose(3, "before"), a = sym_choose(3, "after");
    std::string s = before[b] + sym_string(sym_choose(sym_param("N", 4) + 1, "len"), "text") + after[a];
    fr::URL u(s);
    sym_observe("scheme", u.get_scheme());
    sym_observe_str("host", u.get_host()); sym_observe_str("port", u.get_port()); sym_observe_str("path", u.get_path());
    sym_observe_str("query", u.get_query()); sym_observe_str("fragment", u.get_fragment());
    sym_check(u.get_scheme() <= fr::URL::Unknown, "scheme in range");
    sym_check(u.get_path().empty() || u.get_path()[0] == '/', "a path begins with /");
    sym_check(u.get_host().size() + u.get_port().size() + u.get_path().size() + u.get_query().size() + u.get_fragment().size() <= s.size() + 5, "nothing is made up, except for a port and a /");
    fr::URL again("irc://x:1/y?z#w");
    again.parse(s);
    sym_check(again == u, "nothing of what was parsed before is kept");
    if(!u.get_host().empty() && u.get_scheme() != fr::URL::Unknown && !u.get_port().empty())
    {
        fr::URL back(u.get_url());
        sym_check(back == u, "an URL which is put together again means the same");
        sym_reach("fixpoint");
    }
    sym_reach("done");
    return 0;
}
