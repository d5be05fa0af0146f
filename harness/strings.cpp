// Conversions between enumerations and strings
#include <frnetlib/Http.h>
#include <cstring>
extern "C" { const char *gai_strerror(int) noexcept { return "gai"; } void mbedtls_strerror(int, char *b, size_t n) { if(n) *b = 0; } }
#include "tokens.h"
typedef fr::Socket::Status S;
typedef fr::Http H;
static std::string S_to_string(uint32_t v) { return fr::Socket::status_to_string((S)v); }
int main()
{
    unsigned k = sym_choose(4, "conversion");
    if(k == 0)
    {
        // the texts of the statuses are different from each other, so that they can be told apart
        uint32_t a = sym_val<uint32_t>("status"), b = sym_val<uint32_t>("other status");
        std::string s = S_to_string(a), t = S_to_string(b);
        sym_check(!s.empty(), "every status has a text");
        static const char *texts[] = {"Unknown", "Success", "Listen Failed", "Bind Failed", "The Socket Is Not Connected", "Error", "Would Block", "Connection Failed", "Handshake Failed", "Verification Failed", "Max Packet Size Exceeded", "Not Enough Data", "Parse Error",
            "HTTP Header Too Big", "HTTP Body Too Big", "Address Lookup Failure", "Send Error", "Receive Error", "Accept Error", "SSL Error", "No Route To Host", "Timeout"};
        if(a <= 21) { std::string want = texts[sym_concretize(a)]; sym_check(s.size() >= want.size() && s.substr(0, want.size()) == want, "the text says what the status is"); }
        if(a > 21 && a != 0) { sym_check(s == "Unknown", "a value which isn't a status is unknown"); sym_reach("invalid status"); }
        else if(b <= 21 && a != b) { sym_check(!same_str(s, t), "different statuses have different texts"); sym_reach("statuses"); }
    }
    else if(k == 1)
    {
        uint32_t v = sym_val<uint32_t>("type");
        std::string s = H::request_type_to_string((H::RequestType)v);
        static const char *names[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};
        if(v < 5)
        {
            sym_check(s == names[v], "the name of a request type");
            sym_check(H::string_to_request_type(s) == (H::RequestType)v, "a request type can be turned into a string and back");
            for(size_t i = 0; i < s.size(); i++) sym_check(H::string_to_request_type(s.substr(0, i)) == H::RequestType::Partial, "the beginning of a name is partial");
            sym_reach("type");
        }
        else { sym_check(s == "UNKNOWN", "a value which isn't a request type is unknown"); sym_reach("invalid type"); }
    }
    else if(k == 2)
    {
        std::string s = sym_string(sym_choose(sym_param("N", 7) + 1, "len"), "name");
        static const struct { const char *n; H::RequestType t; } names[] = {{"GET", H::RequestType::Get}, {"POST", H::RequestType::Post}, {"PUT", H::RequestType::Put}, {"DELETE", H::RequestType::Delete}, {"PATCH", H::RequestType::Patch}};
        uint64_t want = (uint64_t)H::RequestType::Unknown;
        for(auto &e : names)
        {
            std::string n = e.n;
            size_t c = n.size() < s.size() ? n.size() : s.size();
            bool eq = same_bytes(n.data(), s.data(), c);
            if(s.size() >= n.size()) want = sym_ite(eq, (uint64_t)e.t, want);
            else want = sym_ite(eq & (want == (uint64_t)H::RequestType::Unknown), (uint64_t)H::RequestType::Partial, want);
        }
        H::RequestType got = H::string_to_request_type(s);
        sym_observe("type", (uint64_t)got);
        sym_check((uint64_t)got == want, "a request type, the beginning of one, or unknown");
        sym_reach("method");
    }
    else
    {
        static const struct { const char *n; H::TransferEncoding e; } names[] = {{"none", H::TransferEncoding::None}, {"chunked", H::TransferEncoding::Chunked}, {"compress", H::TransferEncoding::Compress}, {"deflate", H::TransferEncoding::Deflate}, {"gzip", H::TransferEncoding::Gzip}, {"identity", H::TransferEncoding::Identity}};
        std::string s = sym_string(sym_choose(sym_param("N", 7) + 3, "len"), "name");
        uint64_t want = (uint64_t)H::TransferEncoding::None;
        std::string l = lower(s);
        for(auto &e : names) if(l.size() == strlen(e.n)) want = sym_ite(same_bytes(l.data(), e.n, l.size()), (uint64_t)e.e, want);
        H::TransferEncoding got = H::string_to_transfer_encoding(s);
        sym_observe("encoding", (uint64_t)got);
        sym_check((uint64_t)got == want, "an encoding in any case, or none");
        sym_reach("encoding");
    }
    sym_reach("done");
    return 0;
}
