// The fields of a message are what was put into them last, whatever else is done with the message and its copies.
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include "tokens.h"
typedef fr::Http H;
struct Model { std::string uri, body, header; H::RequestType type; H::RequestStatus status; H::RequestVersion version; bool has; };
static void observe(const fr::Http &h, const char *) { sym_observe_str("uri", h.get_uri()); sym_observe_str("body", h.get_body()); sym_observe("status", (uint64_t)h.get_status()); }
static void compare(fr::Http &h, const Model &m)
{
    sym_check(same_str(h.get_uri(), m.uri), "URI");
    sym_check(same_str(h.get_body(), m.body), "body");
    sym_check(h.get_type() == m.type, "type");
    sym_check(h.get_status() == m.status, "status");
    sym_check(h.get_version() == m.version, "version");
    sym_check(h.header_exists("k") == m.has && (!m.has || same_str(h.header("K"), m.header)), "header");
}
template<typename M> static void run()
{
    unsigned N = sym_param("N", 2), steps = sym_param("STEPS", 3);
    M a;
    Model x{"/", "", "", H::RequestType::Unknown, H::RequestStatus::Ok, H::RequestVersion::V1_1, false};
    compare(a, x);
    M b; Model y = x;
    for(unsigned i = 0; i < steps; i++)
    {
        switch(sym_choose(11, "operation"))
        {
            case 0: { std::string s = token(0, N, "", "uri", true); a.set_uri(s); if(!s.empty()) x.uri = s[0] == '/' ? s : "/" + s; sym_reach("uri"); break; }
            case 1: { std::string s = token(0, N, "", "body", true); a.set_body(s); x.body = s; break; }
            case 2: { auto t = (H::RequestType)sym_choose(8, "type"); a.set_type(t); x.type = t; break; }
            case 3: { unsigned v = sym_val<unsigned short>("status"); sym_assume((v >= 100) & (v <= 999)); a.set_status((H::RequestStatus)v); x.status = (H::RequestStatus)v; break; }
            case 4: { auto v = (H::RequestVersion)(1 + sym_choose(2, "version")); a.set_version(v); x.version = v; break; }
            case 5: { std::string s = token(0, N, "", "header", true); a.header("K") = s; x.header = s; x.has = true; break; }
            case 6: { std::string once = a.construct("h"), twice = a.construct("h"); sym_check(same_str(once, twice), "constructing a message doesn't change it"); break; }
            case 7: b = a; y = x; sym_reach("assigned"); break;
            case 8: { M c(a); b = std::move(c); y = x; break; }
            case 9: std::swap(a, b); std::swap(x, y); break;
            case 10: { fr::Http &r = a; const fr::Http &c = a; r.set_type(c.get_type()); r.set_uri(c.get_uri()); r.set_body(c.get_body()); break; }
        }
        compare(a, x); compare(b, y);
    }
    observe(a, "a"); observe(b, "b");
    sym_reach("done");
}
int main() { if(sym_param("TYPE", 0)) run<fr::HttpResponse>(); else run<fr::HttpRequest>(); return 0; }
