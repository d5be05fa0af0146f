// How a HTTP message is cut into segments makes no difference: every message which is one of the templates with any
// bytes at any place, cut anywhere, gives what it gives in one piece.
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include "sym.h"
typedef fr::Socket::Status S;
static const char *templates[] = {
    "GET /a?b=c HTTP/1.1\r\nH: v\r\nContent-Length: 3\r\n\r\nxyz",
    "POST /p HTTP/1.0\nContent-Length: 3\nH: v\n\na=b",
    "HTTP/1.1 200 OK\r\nH: v\r\nContent-Length: 3\r\n\r\nxyz",
    "HTTP/1.0 404\nContent-Length: 2\nH: v\n\nxy",
    "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0a\r\n0123456789\r\n0\r\n\r\n",
    "GET / HTTP/1.1\n\r\n",
};
template<typename M> static S feed(M &m, const std::string &d, const size_t *cut, unsigned n)
{
    S st = S::NotEnoughData;
    size_t p = 0;
    for(unsigned i = 0; i <= n && st == S::NotEnoughData; i++)
    {
        size_t e = i < n ? cut[i] : d.size();
        if(e == p && i) continue;
        std::string piece = d.substr(p, e - p);
        st = m.parse(piece.data(), piece.size());
        p = e;
    }
    return st;
}
template<typename M> static bool declares(M &m)
{
    if(m.header_exists("content-length")) return true;
    if(!m.header_exists("transfer-encoding")) return false;
    std::string v = m.header("transfer-encoding");
    bool same = v.size() == 7;
    for(size_t i = 0; i < 7 && same; i++) same &= (v[i] | 0x20) == "chunked"[i];
    return same;
}
template<typename M> static void compare(const std::string &d, const size_t *cut, unsigned n)
{
    M whole, parts;
    S a = whole.parse(d.data(), d.size()), b = feed(parts, d, cut, n);
    sym_observe("status", (uint64_t)a);
    sym_check(a == b, "the same status, however the message is cut up");
    sym_reach(a == S::Success ? "success" : a == S::NotEnoughData ? "incomplete" : a == S::ParseError ? "error" : "limit");
    if(a != S::Success || b != S::Success) return;
    sym_check(whole.get_type() == parts.get_type() && whole.get_version() == parts.get_version() && whole.get_status() == parts.get_status(), "type, version and status");
    sym_check(same_str(whole.get_uri(), parts.get_uri()), "URI");
    bool declared = declares(whole);
    sym_check(declared == declares(parts), "headers");
    if(declared) { sym_check(same_str(whole.get_body(), parts.get_body()), "body"); sym_check(same_str(whole.construct("h"), parts.construct("h")), "headers and variables"); sym_reach("declared"); }
    else
    {
        // without a declared length, the body is what arrived along with the header
        std::string w = whole.get_body(), p = parts.get_body();
        sym_check(p.size() <= w.size() && same_bytes(w.data(), p.data(), p.size()), "body");
        whole.set_body(""); parts.set_body("");
        if(whole.get_type() != fr::Http::RequestType::Post) sym_check(same_str(whole.construct("h"), parts.construct("h")), "headers and variables");
    }
}
int main()
{
    unsigned t = sym_param("TEMPLATE", 0);
    std::string d = templates[t];
    unsigned extra = sym_choose(2, "excess");
    if(extra) d += sym_param("EXCESS", 0) ? "GET / HTTP/1.1\r\n\r\n" : "Z\n";
    unsigned holes = sym_param("HOLES", 1);
    if(holes)
    {
        size_t at = sym_choose((uint32_t)(d.size() - holes + 1), "hole");
        sym_make(&d[at], holes, "bytes");
    }
    unsigned n = sym_param("CUTS", 1);
    size_t cut[8]; size_t p = 0;
    for(unsigned i = 0; i < n; i++) { cut[i] = p + sym_choose((uint32_t)(d.size() - p) + 1, "cut"); p = cut[i]; }
    if(t == 0 || t == 1 || t == 5) compare<fr::HttpRequest>(d, cut, n); else compare<fr::HttpResponse>(d, cut, n);
    sym_reach("done");
    return 0;
}
