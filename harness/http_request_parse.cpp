// A well-formed request is taken apart into its method, URI, version, parameters, headers and body.
#include <frnetlib/HttpRequest.h>
#include "tokens.h"
typedef fr::Socket::Status S;
typedef fr::Http H;
int main()
{
    unsigned N = sym_param("N", 2), MANY = sym_param("MANY", 0), part = sym_param("PART", 0);
    const bool odd = !MANY && !sym_param("PAD", 0);
    static const struct { const char *name; H::RequestType t; } methods[] = {{"GET", H::RequestType::Get}, {"POST", H::RequestType::Post}, {"PUT", H::RequestType::Put}, {"DELETE", H::RequestType::Delete}, {"PATCH", H::RequestType::Patch}};
    if(part == 4)
    {
        // which methods are known
        std::string name = token(1, sym_param("M", 6), "/", "method"), req = name + " / HTTP/1.1\r\n\r\n";
        unsigned want = 5;
        for(unsigned i = 0; i < 5; i++) { std::string n = methods[i].name; if(n.size() == name.size()) want = (unsigned)sym_ite(same_str(n, name), i, want); }
        size_t cut = sym_choose((uint32_t)name.size() + 1, "cut");
        fr::HttpRequest r;
        S st = r.parse(req.data(), cut);
        if(st == S::NotEnoughData) st = r.parse(req.data() + cut, req.size() - cut);
        sym_observe("status", (uint64_t)st);
        sym_check(st == (want < 5 ? S::Success : S::ParseError), "a known method is accepted, anything else isn't");
        if(st == S::Success) { sym_check(r.get_type() == methods[want].t, "method"); sym_reach("known"); } else sym_reach("unknown");
        sym_reach("done");
        return 0;
    }
    unsigned m = part == 0 ? sym_choose(5, "method") : part == 3 ? 1 : sym_choose(2, "method") * 2;
    const char *eol = sym_choose(2, "line end") ? "\n" : "\r\n";
    std::string version = http_version(part == 0);
    std::string uri = "/", flag, gname[2], gval[2], hname[2], hval[2], pname[2], pval[2], body, req = methods[m].name;
    unsigned gets = 0, headers = 0, posts = 0, len = 0;
    if(part == 0) uri += token(0, N, "?", "uri");
    req += " " + uri;
    if(part == 1)
    {
        gets = sym_choose(3, "parameters");
        req += "?";
        if(sym_choose(2, "flag")) { flag = token(1, N, "?=&", "flag"); req += flag + (gets || MANY ? "&" : ""); }  // a parameter without a value
        for(unsigned i = 0; i < MANY; i++) req += many_name(i) + "=" + many_value(i) + "&";
        for(unsigned i = 0; i < gets; i++)
        {
            gname[i] = token(1, N, "?=&", "parameter"); gval[i] = token(0, N, "&", "value");
            req += (i ? "&" : "") + gname[i] + "=" + gval[i];
        }
        if(gets == 2) sym_assume(!same_str(lower(gname[0]), lower(gname[1])));
    }
    req += " " + version;
    req += eol;
    if(part == 2)
    {
        headers = 1 + sym_choose(2, "headers");
        for(unsigned i = 0; i < MANY; i++) req += many_name(i) + ": " + many_value(i) + eol;
        for(unsigned i = 0; i < headers; i++)
        {
            hname[i] = token(1, N, NAME_EXCEPT, "header"); hval[i] = text(0, N, "value");
            req += hname[i] + ":"; req += ows(odd && i == 0 ? 2 : 1, "before"); req += hval[i]; req += ows(odd && i == 0, "after"); req += eol;
        }
        if(headers == 2) sym_assume(!same_str(lower(hname[0]), lower(hname[1])));
    }
    if(part == 3)
    {
        posts = 1 + sym_choose(2, "variables");
        for(unsigned i = 0; i < MANY; i++) body += many_name(i) + "=" + many_value(i) + "&";
        for(unsigned i = 0; i < posts; i++)
        {
            pname[i] = token(1, N, "?=&", "variable"); pval[i] = token(0, N, "&", "value");
            body += (i ? "&" : "") + pname[i] + "=" + pval[i];
        }
        if(posts == 2) sym_assume(!same_str(lower(pname[0]), lower(pname[1])));
    }
    if(part == 0) body = sym_string(sym_choose(N + 1, "body size"), "body");
    bool sized = part == 3 || sym_choose(2, "length");
    if(sized) { req += sym_choose(2, "spelling") ? "Content-Length: " : "content-length:"; req += std::to_string(body.size()) + eol; }
    req += eol;
    req += body;
    if(sized && sym_choose(2, "excess")) req += "Zz";
    fr::HttpRequest r;
    S st = r.parse(req.data(), req.size());
    sym_observe("status", (uint64_t)st);
    sym_check(st == S::Success, "a well-formed request is accepted");
    sym_check(r.get_type() == methods[m].t, "method");
    sym_check(same_str(r.get_uri(), uri), "URI");
    sym_check(r.get_version() == (is_http_1_0(version) ? H::RequestVersion::V1 : H::RequestVersion::V1_1), "version");
    sym_check(same_str(r.get_body(), body), "body");
    for(unsigned i = 0; i < gets; i++) { sym_check(r.get_exists(gname[i]) && same_str(r.get(gname[i]), gval[i]), "GET parameter"); sym_reach("parameter"); }
    if(part == 1 && gets < 2) { std::string other = token(1, N, "", "other"); if((!gets || !same_str(lower(other), lower(gname[0]))) && !same_str(lower(other), lower(flag))) { sym_check(!r.get_exists(other), "no other GET parameter"); sym_reach("no other parameter"); } }
    for(unsigned i = 0; i < headers; i++) { sym_check(r.header_exists(hname[i]) && same_str(r.header(hname[i]), hval[i]), "header"); sym_reach("header"); }
    if(headers == 1) { std::string other = token(1, N, "", "other"); if(!same_str(lower(other), lower(hname[0]))) sym_check(!r.header_exists(other), "no other header"); }
    for(unsigned i = 0; i < posts; i++) { sym_check(r.post_exists(pname[i]) && same_str(r.post(pname[i]), pval[i]), "POST variable"); sym_reach("variable"); }
    if(posts == 1) { std::string other = token(1, N, "", "other"); if(!same_str(lower(other), lower(pname[0]))) sym_check(!r.post_exists(other), "no other POST variable"); }
    for(unsigned i = 0; i < MANY; i++) { std::string n = many_name(i), v = many_value(i); sym_check(part == 1 ? r.get_exists(n) && r.get(n) == v : part == 2 ? r.header_exists(n) && r.header(n) == v : r.post_exists(n) && r.post(n) == v, "every one of many"); }
    if(part == 0) { sym_check(r.header_exists("content-length") == sized, "content length"); sym_reach("plain"); }
    sym_reach("done");
    return 0;
}
