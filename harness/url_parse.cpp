// URLs put together from arbitrary components are taken apart into them again; any text is survived.
#include <frnetlib/URL.h>
#include "tokens.h"
// arbitrary characters which aren't in 'no'
static std::string any(unsigned lo, unsigned hi, const char *no, const char *name) { return token(lo, hi, no, name, true); }
static void same(const fr::URL &a, const fr::URL &b, const char *what)
{
    sym_check(a.get_scheme() == b.get_scheme() && same_str(a.get_host(), b.get_host()) && same_str(a.get_port(), b.get_port()) && same_str(a.get_path(), b.get_path())
              && same_str(a.get_query(), b.get_query()) && same_str(a.get_fragment(), b.get_fragment()), what);
}
static void observe(const fr::URL &u)
{
    sym_observe("scheme", u.get_scheme());
    sym_observe_str("host", u.get_host()); sym_observe_str("port", u.get_port()); sym_observe_str("path", u.get_path());
    sym_observe_str("query", u.get_query()); sym_observe_str("fragment", u.get_fragment());
}
int main()
{
    unsigned N = sym_param("N", 2);
    static const struct { const char *name; fr::URL::Scheme s; const char *port; } known[] = {
        {"http", fr::URL::HTTP, "80"}, {"https", fr::URL::HTTPS, "443"}, {"ftp", fr::URL::FTP, "21"}, {"mailto", fr::URL::MAILTO, ""}, {"irc", fr::URL::IRC, "6697"}, {"sftp", fr::URL::SFTP, "22"}, {"gopher", fr::URL::Unknown, ""}};
    fr::URL::Scheme scheme = fr::URL::Unknown;
    std::string text, guess;
    unsigned k = sym_choose(sym_param("SCHEMES", 3) + 1, "scheme");
    if(k)
    {
        if(sym_param("SCHEMES", 3) == 3) k = k == 1 ? 1 : k == 2 ? 2 : 7;
        text = known[k - 1].name; scheme = known[k - 1].s; guess = known[k - 1].port;
        unsigned char mask = sym_val<unsigned char>("upper case");
        for(size_t i = 0; i < text.size(); i++) text[i] = (char)sym_ite((mask >> i) & 1, (unsigned char)(text[i] - 32), (unsigned char)text[i]);
        text += "://";
    }
    std::string host = any(1, N, ":/?#", "host"), port = guess, path, query, fragment;
    text += host;
    bool more = k;
    if(sym_choose(2, "port")) { port = any(1, N, ":/?#", "port"); text += ":" + port; more = true; sym_reach("port"); }
    if(sym_choose(2, "path")) { path = "/" + any(0, N, "?#", "path"); text += path; more = true; sym_reach("path"); }
    if(sym_choose(2, "query")) { query = any(0, N, "#", "query"); text += "?" + query; more = true; sym_reach("query"); }
    if(sym_choose(2, "fragment")) { fragment = any(0, N, "", "fragment"); text += "#" + fragment; more = true; sym_reach("fragment"); }
    if(!more) { sym_reach("bare"); return 0; }  // a bare word is a path
    fr::URL u(text);
    observe(u);
    sym_check(u.get_scheme() == scheme, "scheme");
    sym_check(same_str(u.get_host(), host), "host");
    sym_check(same_str(u.get_port(), port), "port, or the one which belongs to the scheme");
    // an URL without a path after its host has the path /, or none
    sym_check(path.size() > 1 ? same_str(u.get_path(), path) : u.get_path().empty() || same_str(u.get_path(), "/"), "path");
    sym_check(same_str(u.get_query(), query), "query");
    sym_check(same_str(u.get_fragment(), fragment), "fragment");
    std::string uri = u.get_path() + (query.empty() ? "" : "?" + query) + (fragment.empty() ? "" : "#" + fragment);
    sym_check(same_str(u.get_uri(), uri), "URI");
    // an object which held something else gives the same
    fr::URL again("irc://x:1/y?z#w");
    again.parse(text);
    same(u, again, "nothing of what was parsed before is kept");
    sym_check(u == again, "comparison");
    std::string back = u.get_url();
    if(scheme != fr::URL::Unknown || !u.get_port().empty() || !u.get_path().empty()) same(fr::URL(back), u, "an URL which is put together again means the same");
    sym_reach("done");
    return 0;
}
