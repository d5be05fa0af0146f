// Chunked responses: the body is what the chunks contain, however they are written and cut up.
#include <frnetlib/HttpResponse.h>
#include "tokens.h"
typedef fr::Socket::Status S;
int main()
{
    unsigned N = sym_param("N", 2), CH = sym_param("CHUNKS", 2);
    const char *eol = sym_choose(2, "line end") ? "\n" : "\r\n";
    std::string d = std::string("HTTP/1.1 200 OK") + eol, body;
    if(sym_param("SPELLING", 0))
    {
        std::string name = "transfer-encoding", val = "chunked";
        uint32_t mask = sym_val<uint32_t>("upper case");
        for(size_t i = 0; i < name.size(); i++) if(name[i] != '-') name[i] = (char)sym_ite((mask >> i) & 1, (unsigned char)(name[i] - 32), (unsigned char)name[i]);
        for(size_t i = 0; i < val.size(); i++) val[i] = (char)sym_ite((mask >> (i + 20)) & 1, (unsigned char)(val[i] - 32), (unsigned char)val[i]);
        static const char *lists[] = {"", "gzip, ", "gzip,"};
        d += name + ": " + lists[sym_choose(3, "list")] + val + eol;
    }
    else d += std::string("Transfer-Encoding: chunked") + eol;
    std::string value;
    if(sym_param("SPELLING", 0))
    {
        value = text(1, 2, "value");
        if(sym_choose(2, "length")) d += std::string("Content-Length: 1") + eol;     // doesn't count
        d += "X-After: " + value + eol;
    }
    d += eol;
    size_t head = d.size();
    unsigned chunks = sym_choose(CH + 1, "chunks");
    for(unsigned i = 0; i < chunks; i++)
    {
        static const unsigned large[] = {127, 128, 255, 256, 1000, 4095, 4096, 43981, 65536};
        unsigned big = sym_param("BIG", 0), size = big == 2 ? large[sym_choose(9, "large")] : 1 + sym_choose(big ? 18 : N, "size");
        static const char *digits = "0123456789abcdef";
        std::string hex;
        unsigned zeros = sym_choose(sym_param("ZEROS", 1) + 1, "zeros");
        hex.append(zeros, '0');
        bool upper = sym_choose(2, "upper");
        for(int b = 28; b >= 0; b -= 4) if(!b || size >> b) { char c = digits[(size >> b) & 15]; hex += c > '9' && upper ? (char)(c - 32) : c; }
        if(sym_param("EXT", 1) && sym_choose(2, "extension")) { unsigned e = sym_choose(3, "kind"); hex += e == 0 ? ";" + token(0, 1, "", "extension") : e == 1 ? std::string(";name=\"value\"; other=value") : std::string(1 + sym_choose(2, "spaces"), ' '); }
        std::string c = big ? std::string(size, 'x') : std::string();
        if(c.empty()) c = sym_string(size, "data"); else sym_make(&c[size - 1], 1, "data");
        d += hex + "\r\n" + c + "\r\n";
        body += c;
    }
    d += sym_choose(2, "last") ? "0\r\n" : "00\r\n";
    // trailing headers
    if(unsigned t = sym_param("TRAILERS", 0)) { t = sym_choose(t, "trailers"); if(t) d += "X-T: " + text(0, 2, "trailer") + "\r\n"; if(t > 1) d += "Expires: never\r\n"; }
    d += "\r\n";
    size_t whole = d.size();
    if(sym_choose(2, "excess")) d += "HTTP";
    unsigned cuts = sym_param("CUTS", 1);
    fr::HttpResponse r;
    S st = S::NotEnoughData;
    size_t p = 0;
    for(unsigned i = 0; i <= cuts; i++)
    {
        size_t e = i < cuts ? p + sym_cut(d.size() - p + 1, "cut") - 1 : d.size();
        if(e == p && i) continue;
        std::string piece = d.substr(p, e - p);
        st = r.parse(piece.data(), piece.size());
        p = e;
        sym_check(st == (p >= whole ? S::Success : S::NotEnoughData), "the message is over after its last chunk, and not earlier");
        if(st == S::Success) break;
        sym_reach(p >= head ? "waiting" : "header");
    }
    if(!value.empty()) sym_check(same_str(r.header("x-after"), value), "the header is read to its end");
    sym_observe_str("body", r.get_body());
    sym_check(same_str(r.get_body(), body), "the body is what the chunks contain");
    sym_reach("done");
    return 0;
}
