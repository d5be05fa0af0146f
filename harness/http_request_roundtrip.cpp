// A request which was put together is understood as what it was made of.
#include <frnetlib/HttpRequest.h>
#include "tokens.h"
typedef fr::Socket::Status S;
typedef fr::Http H;
static size_t count(const std::string &d, const char *what) { size_t n = 0; std::string w = what; for(size_t i = 0; i + w.size() <= d.size(); i++) { bool eq = true; for(size_t j = 0; j < w.size(); j++) eq &= lower((unsigned char)d[i + j]) == (unsigned char)w[j]; n += eq; } return n; }
int main()
{
    unsigned N = sym_param("N", 2), MANY = sym_param("MANY", 0), part = sym_param("PART", 0);
    static const H::RequestType types[] = {H::RequestType::Get, H::RequestType::Post, H::RequestType::Put, H::RequestType::Delete, H::RequestType::Patch, H::RequestType::Unknown};
    unsigned t = part == 0 ? sym_choose(6, "type") : part >= 3 ? 1 : sym_choose(2, "type");
    bool v10 = part == 0 && sym_choose(2, "version");
    fr::HttpRequest q;
    if(t != 5) q.set_type(types[t]);
    if(v10) q.set_version(H::RequestVersion::V1);
    std::string uri = "/", body, host = part == 0 ? token(1, N, "", "host") : std::string("h:1"), gname[2], gval[2], hname[2], hval[2], pname[2], pval[2];
    unsigned gets = 0, headers = 0, posts = 0;
    if(part == 0) { std::string u = token(0, N, "?", "uri"); q.set_uri(u); uri = u.empty() ? "/" : u[0] == '/' ? u : "/" + u; }
    if(part == 1) { gets = sym_choose(3, "parameters"); for(unsigned i = 0; i < gets; i++) { gname[i] = token(1, N, "?=&", "parameter"); gval[i] = token(0, N, "&", "value"); } if(gets == 2) sym_assume(!same_str(lower(gname[0]), lower(gname[1]))); for(unsigned i = 0; i < gets; i++) q.get(gname[i]) = gval[i]; }
    if(part == 2) { headers = sym_choose(3, "headers"); for(unsigned i = 0; i < headers; i++) { hname[i] = token(1, N, NAME_EXCEPT, "header"); hval[i] = text(0, N, "value"); } if(headers == 2) sym_assume(!same_str(lower(hname[0]), lower(hname[1]))); for(unsigned i = 0; i < headers; i++) q.header(hname[i]) = hval[i]; }
    if(part >= 3) { posts = 1 + sym_choose(2, "variables"); for(unsigned i = 0; i < posts; i++) { pname[i] = token(1, N, "?=&", "variable"); pval[i] = token(0, N, "&", "value"); } if(posts == 2) sym_assume(!same_str(lower(pname[0]), lower(pname[1]))); for(unsigned i = 0; i < posts; i++) q.post(pname[i]) = pval[i]; }
    if(part == 4 || (part < 3 && t != 1)) { body = part == 4 ? token(0, N, "&", "body") : sym_string(sym_choose(N + 1, "body size"), "body"); q.set_body(body); }
    for(unsigned i = 0; i < MANY; i++) (part == 1 ? q.get(many_name(i)) : part == 2 ? q.header(many_name(i)) : q.post(many_name(i))) = many_value(i);
    std::string d = q.construct(host);
    size_t end = d.find("\r\n\r\n");
    sym_check(end != std::string::npos && count(d.substr(0, end), "content-length:") <= 1, "at most one content length");
    fr::HttpRequest r;
    S st = r.parse(d.data(), d.size());
    sym_observe("status", (uint64_t)st);
    sym_check(st == S::Success, "it is accepted");
    sym_check(r.get_type() == (t == 5 ? H::RequestType::Get : types[t]), "method");
    sym_check(same_str(r.get_uri(), uri), "URI");
    sym_check(r.get_version() == (v10 ? H::RequestVersion::V1 : H::RequestVersion::V1_1), "version");
    // text which was set beside variables follows them, and may not be told from the last one's value
    if(part == 4) sym_check(r.get_body().size() > body.size() && same_str(r.get_body().substr(r.get_body().size() - body.size()), body), "body");
    if(part < 3) sym_check(same_str(r.get_body(), body), "body");
    sym_check(r.header_exists("host"), "a host header");
    if(part == 0 && !host.empty()) sym_check(same_str(r.header("Host"), host), "host");
    for(unsigned i = 0; i < gets; i++) { sym_check(r.get_exists(gname[i]) && same_str(r.get(gname[i]), gval[i]), "GET parameter"); sym_reach("parameter"); }
    for(unsigned i = 0; i < headers; i++) { sym_check(r.header_exists(hname[i]) && same_str(r.header(hname[i]), hval[i]), "header"); sym_reach("header"); }
    unsigned intact = 0;
    for(unsigned i = 0; i < posts; i++) { if(part == 4) { intact += r.post_exists(pname[i]) && same_str(r.post(pname[i]), pval[i]); continue; } sym_check(r.post_exists(pname[i]) && same_str(r.post(pname[i]), pval[i]), "POST variable"); sym_reach("variable"); }
    if(part == 4) { sym_check(intact + (body.empty() ? 0 : 1) >= posts, "POST variables beside other text"); sym_reach("variable"); }
    for(unsigned i = 0; i < MANY; i++) { std::string n = many_name(i), v = many_value(i); sym_check(part == 1 ? r.get_exists(n) && r.get(n) == v : part == 2 ? r.header_exists(n) && r.header(n) == v : r.post_exists(n) && r.post(n) == v, "every one of many"); }
    // nothing of it is left over, and nothing is missing
    fr::HttpRequest s;
    size_t cut = d.size() - 1 - sym_choose(2, "missing") * (body.size() ? body.size() - 1 : 0);
    if(body.size() || posts) { S part_st = s.parse(d.data(), cut); sym_check(part_st == S::NotEnoughData, "the message isn't over before its last byte"); sym_reach("length"); }
    sym_reach("done");
    return 0;
}
