// A response which was put together is understood as what it was made of.
#include <frnetlib/HttpResponse.h>
#include "tokens.h"
typedef fr::Socket::Status S;
typedef fr::Http H;
int main()
{
    unsigned N = sym_param("N", 2), MANY = sym_param("MANY", 0);
    fr::HttpResponse q;
    unsigned status = 200;
    bool st_set = sym_choose(2, "status set");
    if(st_set) { static const unsigned all[] = {100,101,200,201,202,203,204,205,206,226,300,301,302,303,304,305,307,308,400,401,402,403,404,405,406,407,408,409,410,411,412,413,414,415,416,417,418,422,426,428,429,431,451,500,501,502,503,504,505,506,510,511,598,599};
        status = sym_param("STATUS", 0) ? all[sym_choose(sizeof(all) / sizeof(*all), "status")] : 100 + sym_choose(5, "class") * 100; q.set_status((H::RequestStatus)status); }
    bool v10 = sym_choose(2, "version");
    if(v10) q.set_version(H::RequestVersion::V1);
    std::string hname[2], hval[2], body;
    unsigned headers = sym_param("STATUS", 0) ? 0 : sym_choose(3, "headers");
    for(unsigned i = 0; i < headers; i++) { hname[i] = token(1, N, NAME_EXCEPT, "header"); hval[i] = text(0, N, "value"); }
    if(headers == 2) sym_assume(!same_str(lower(hname[0]), lower(hname[1])));
    for(unsigned i = 0; i < headers; i++) q.header(hname[i]) = hval[i];
    for(unsigned i = 0; i < MANY; i++) q.header(many_name(i)) = many_value(i);
    body = sym_string(sym_choose(N + 1, "body size"), "body");
    q.set_body(body);
    bool empty = sym_choose(2, "excess") == 0;
    std::string d = q.construct("h");
    size_t whole = d.size();
    if(!empty && body.size()) d += "HTTP/1.1 404\r\n";
    fr::HttpResponse r;
    S st = r.parse(d.data(), d.size());
    sym_observe("status", (uint64_t)st);
    sym_check(st == S::Success, "it is accepted");
    sym_check((unsigned)r.get_status() == status, "status");
    sym_check(r.get_version() == (v10 ? H::RequestVersion::V1 : H::RequestVersion::V1_1), "version");
    sym_check(same_str(r.get_body(), body), "body");
    for(unsigned i = 0; i < headers; i++) { sym_check(r.header_exists(hname[i]) && same_str(r.header(hname[i]), hval[i]), "header"); sym_reach("header"); }
    for(unsigned i = 0; i < MANY; i++) sym_check(r.header_exists(many_name(i)) && r.header(many_name(i)) == many_value(i), "every one of many");
    if(body.size())
    {
        fr::HttpResponse s;
        sym_check(s.parse(d.data(), whole - 1) == S::NotEnoughData, "the message isn't over before its last byte");
        sym_reach("length");
    }
    sym_reach("done");
    return 0;
}
