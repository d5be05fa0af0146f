// Whatever bytes a peer sends, parsing a HTTP message ends with a status of its own, keeps the limits and touches nothing else.
// TYPE 0: requests, 1: responses. The text is a template with HOLES arbitrary bytes at any place, or arbitrary from the beginning.
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include "sym.h"
typedef fr::Socket::Status S;
static const char *requests[] = {
    "", "GET ", "POST /a?b=c HTTP/1.1\r\nH: v\r\nContent-Length: 3\r\n\r\na=bz", "PUT / HTTP/1.0\nContent-Length: 99999999999999999999\n\nab", "GET /abcdefghij HTTP/1.1\r\n\r\nabcdefgh", "PUT / HTTP/1.1\r\nContent-Length: 5\r\n\r\nabcdefgh"};
static const char *responses[] = {
    "", "HTTP", "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabcd", "HTTP/1.0 404\nContent-Length: 99999999999999999999\n\nab", "HTTP/1.1 200 OK\r\n\r\nabcdefgh",
    "HTTP/1.1 200\nTransfer-Encoding: chunked\n\n2\r\nab\r\n0\r\n\r\n", "HTTP/1.1 200\nTransfer-Encoding: chunked\n\n", "HTTP/1.1 200\nTransfer-Encoding: chunked\n\nFFFFFFFFFFFFFFFF\r\nab\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nabcdefgh",
    "HTTP/1.1 200\nTransfer-Encoding: chunked\n\nF\r\nabcdefghijklmno\r\n7\r\nabcdefg\r\n0\r\n\r\n"};
template<typename M> static void run(const std::string &d)
{
    M m;
    size_t cut = sym_param("CUTS", 0) ? sym_choose((uint32_t)d.size() + 1, "cut") : d.size();
    std::string first = d.substr(0, cut), rest = d.substr(cut);     // separate allocations, so that reading past the end is noticed
    S st = m.parse(first.data(), first.size());
    size_t given = cut;
    if(st == S::NotEnoughData && !rest.empty()) { st = m.parse(rest.data(), rest.size()); given = d.size(); }
    sym_observe("status", (uint64_t)st);
    sym_check(st == S::Success || st == S::NotEnoughData || st == S::ParseError || st == S::HttpHeaderTooBig || st == S::HttpBodyTooBig, "a status of a parser");
    size_t end = d.substr(0, given).find("\r\n\r\n"), lf = d.substr(0, given).find("\n\n"), skip = 4;
    if(lf < end) { end = lf; skip = 2; }
    size_t H = MAX_HTTP_HEADER_SIZE, B = MAX_HTTP_BODY_SIZE;
    if(end == std::string::npos)
    {
        sym_check(st != S::Success && st != S::HttpBodyTooBig, "no message without the end of its header");
        if(given > H + 3) { sym_check(st != S::NotEnoughData, "an endless header is rejected"); sym_reach("endless"); }
        if(st == S::HttpHeaderTooBig) sym_check(given > H, "a header within the limit isn't rejected");
    }
    else
    {
        if(end > H) { sym_check(st == S::HttpHeaderTooBig || st == S::ParseError, "a header beyond the limit is rejected"); sym_reach("header too big"); }
        else sym_check(st != S::HttpHeaderTooBig, "a header within the limit isn't rejected");
        size_t bytes = end <= H ? given - end - skip : 0;
        if(st == S::HttpBodyTooBig) { sym_check(bytes > B, "a body within the limit isn't rejected"); sym_reach("body too big"); }
        if(st == S::Success)
        {
            sym_check(m.get_body().size() <= B, "a body beyond the limit is rejected");
            sym_check(m.get_body().size() <= bytes, "a body isn't longer than what was sent");
            if(!m.header_exists("content-length") && !m.header_exists("transfer-encoding")) sym_check(m.get_body().size() == bytes, "without a length, the body is what came along");
            sym_reach("success");
        }
        if(st == S::NotEnoughData) sym_check(bytes <= B, "no more than the limit is kept");
    }
    if(st == S::Success || st == S::NotEnoughData)
    {
        sym_observe_str("uri", m.get_uri()); sym_observe("request", (uint64_t)m.get_type()); sym_observe("response", (uint64_t)m.get_status());
        sym_observe_str("body", m.get_body());
    }
    sym_reach(st == S::NotEnoughData ? "incomplete" : st == S::ParseError ? "error" : "done");
}
int main()
{
    unsigned type = sym_param("TYPE", 0), t = sym_param("TEMPLATE", 0), holes = sym_param("HOLES", 2);
    std::string d = (type ? responses : requests)[t];
    if(sym_param("INSERT", 0))
    {
        // HOLES arbitrary bytes at the end, and nothing, or the end of a header after them
        d += sym_string(sym_choose(holes + 1, "len"), "bytes");
        if(sym_choose(2, "end")) d += sym_param("INSERT", 0) == 2 ? "\r\n0\r\n\r\n" : "\r\n\r\n";
    }
    else
    {
        size_t at = sym_choose((uint32_t)(d.size() - holes + 1), "hole");
        sym_make(&d[at], holes, "bytes");
        if(sym_param("TRUNC", 0)) d.resize(sym_choose((uint32_t)d.size() + 1, "size"));
    }
    if(type) run<fr::HttpResponse>(d); else run<fr::HttpRequest>(d);
    return 0;
}
