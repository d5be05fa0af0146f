// The components of a URL object are what was set last; two URLs are equal exactly if all of them are.
#include <frnetlib/URL.h>
#include "tokens.h"
static std::string any(unsigned n, const char *name) { return token(0, n, "", name, true); }
struct Model
{
    fr::URL::Scheme scheme = fr::URL::Unknown; std::string c[5];
    bool same(const Model &o) const { bool r = scheme == o.scheme; for(int i = 0; i < 5; i++) r = r & (c[i].size() == o.c[i].size() && same_str(c[i], o.c[i])); return r; }
};
static void compare(const fr::URL &u, const Model &m)
{
    sym_check(u.get_scheme() == m.scheme, "scheme");
    sym_check(same_str(u.get_host(), m.c[0]), "host");
    sym_check(same_str(u.get_port(), m.c[1]), "port");
    sym_check(same_str(u.get_path(), m.c[2]), "path");
    sym_check(same_str(u.get_query(), m.c[3]), "query");
    sym_check(same_str(u.get_fragment(), m.c[4]), "fragment");
    std::string uri = m.c[2];
    if(!m.c[3].empty()) uri += "?" + m.c[3];
    if(!m.c[4].empty()) uri += "#" + m.c[4];
    sym_check(same_str(u.get_uri(), uri), "URI");
    static const char *names[] = {"http://", "https://", "ftp://", "mailto://", "irc://", "sftp://", ""};
    std::string url;
    if(!m.c[0].empty()) url = names[m.scheme] + m.c[0] + (m.c[1].empty() ? "" : ":" + m.c[1]);
    sym_check(same_str(u.get_url(), url + uri), "whole URL");
}
static void set(fr::URL &u, Model &m, unsigned what, unsigned N)
{
    if(what == 5) { m.scheme = (fr::URL::Scheme)sym_choose(7, "scheme"); u.set_scheme(m.scheme); return; }
    std::string s = any(N, "value");
    m.c[what] = s;
    switch(what)
    {
        case 0: u.set_host(s); break;
        case 1: u.set_port(s); break;
        case 2: u.set_path(s); break;
        case 3: u.set_query(s); break;
        case 4: u.set_fragment(s); break;
    }
}
int main()
{
    unsigned N = sym_param("N", 2), steps = sym_param("STEPS", 2);
    fr::URL u; Model m;
    compare(u, m);
    if(sym_choose(2, "parsed"))
    {
        u.parse("http://h:1/p?q#f"); m.scheme = fr::URL::HTTP; m.c[0] = "h"; m.c[1] = "1"; m.c[2] = "/p"; m.c[3] = "q"; m.c[4] = "f";
        sym_reach("parsed");
    }
    else
        for(unsigned i = 0; i < 2; i++) set(u, m, sym_choose(6, "first"), 1);
    fr::URL v(u); Model n = m;
    sym_check(v == u && u == v, "a copy is equal");
    for(unsigned i = 0; i < steps; i++)
    {
        unsigned what = sym_choose(6, "what");
        set(v, n, what, N);
        compare(v, n); compare(u, m);
        bool equal = n.same(m);
        sym_check((v == u) == equal && (u == v) == equal, "equal exactly if every component is");
        sym_reach(equal ? "equal" : "different");
    }
    u = v;
    sym_check(u == v, "an assigned one is equal"); compare(u, n);
    sym_observe_str("url", u.get_url());
    sym_reach("done");
    return 0;
}
