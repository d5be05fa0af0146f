// A well-formed response is taken apart into its status, version, headers and body.
#include <frnetlib/HttpResponse.h>
#include "tokens.h"
typedef fr::Socket::Status S;
typedef fr::Http H;
int main()
{
    unsigned N = sym_param("N", 2), MANY = sym_param("MANY", 0), part = sym_param("PART", 0);
    const bool odd = !MANY && !sym_param("PAD", 0);
    const char *eol = sym_choose(2, "line end") ? "\n" : "\r\n";
    unsigned status = 200;
    std::string code = "200", hname[2], hval[2], body;
    if(part == 0)
    {
        code = sym_string(3, "code");
        sym_assume((code[0] >= '1') & (code[0] <= '5') & (code[1] >= '0') & (code[1] <= '9') & (code[2] >= '0') & (code[2] <= '9'));
        status = (code[0] - '0') * 100u + (code[1] - '0') * 10u + (code[2] - '0');
    }
    std::string version = http_version(part == 0);
    std::string d = version + " " + code;
    unsigned reason = part == 0 ? sym_choose(3, "reason") : 0;
    if(reason) d += " ";
    if(reason == 2) d += text(1, N + 1, "phrase");
    d += eol;
    unsigned headers = part ? 1 + sym_choose(2, "headers") : 0;
    for(unsigned i = 0; i < headers; i++) { hname[i] = token(1, N, NAME_EXCEPT, "header"); hval[i] = text(0, N, "value"); d += hname[i] + ":"; d += ows(odd && i == 0 ? 2 : 1, "before"); d += hval[i]; d += ows(odd && i == 0, "after"); d += eol; }
    for(unsigned i = 0; i < MANY; i++) d += many_name(i) + ": " + many_value(i) + eol;
    if(headers == 2) sym_assume(!same_str(lower(hname[0]), lower(hname[1])));
    body = sym_string(sym_choose(N + 1, "body size"), "body");
    bool sized = sym_choose(2, "length");
    if(sized) { d += sym_choose(2, "spelling") ? "Content-Length: " : "content-length:"; d += std::to_string(body.size()) + eol; }
    d += eol; d += body;
    if(sized && sym_choose(2, "excess")) d += "Zz";
    fr::HttpResponse r;
    S st = r.parse(d.data(), d.size());
    sym_observe("status", (uint64_t)st);
    sym_check(st == S::Success, "a well-formed response is accepted");
    sym_check((unsigned)r.get_status() == status, "status");
    sym_check(r.get_version() == (is_http_1_0(version) ? H::RequestVersion::V1 : H::RequestVersion::V1_1), "version");
    sym_check(same_str(r.get_body(), body), "body");
    sym_check(r.header_exists("Content-Length") == sized, "content length");
    for(unsigned i = 0; i < headers; i++) { sym_check(r.header_exists(hname[i]) && same_str(r.header(hname[i]), hval[i]), "header"); sym_reach("header"); }
    if(headers == 1) { std::string other = token(1, N, "", "other"); if(!same_str(lower(other), lower(hname[0]))) sym_check(!r.header_exists(other), "no other header"); }
    for(unsigned i = 0; i < MANY; i++) sym_check(r.header_exists(many_name(i)) && r.header(many_name(i)) == many_value(i), "every one of many");
    sym_reach("done");
    return 0;
}
