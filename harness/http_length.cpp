// The length a HTTP message declares: what isn't a length is rejected, not guessed.
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include "tokens.h"
typedef fr::Socket::Status S;
static bool digit(unsigned char c) { return (c >= '0') & (c <= '9'); }
static int hex(unsigned char c) { if(digit(c)) return c - '0'; if(c >= 'a' && c <= 'f') return c - 'a' + 10; if(c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static S feed(fr::Http &m, const std::string &d)
{
    size_t p = 0; S st = S::NotEnoughData;
    for(unsigned i = 0, cuts = sym_param("CUTS", 0); i <= cuts && st == S::NotEnoughData; i++)
    {
        size_t e = i < cuts ? p + sym_cut(d.size() - p + 1, "cut") - 1 : d.size();
        if(e == p && i) continue;
        std::string piece = d.substr(p, e - p);
        st = m.parse(piece.data(), piece.size());
        p = e;
    }
    return st;
}
// the value of a content length: whether it is one, and which (saturated)
static bool length_of(const std::string &v, uint64_t &n)
{
    size_t b = 0, e = v.size();
    while(b < e && (v[b] == ' ' || v[b] == '\t')) b++;
    while(e > b && (v[e - 1] == ' ' || v[e - 1] == '\t')) e--;
    if(b == e) return false;
    n = 0;
    for(; b < e; b++)
    {
        if(!digit((unsigned char)v[b])) return false;
        unsigned c = (unsigned)(v[b] - '0');
        if(n > (~0ull - c) / 10) return false;
        n = n * 10 + c;
    }
    return true;
}
int main()
{
    unsigned part = sym_param("PART", 0), type = sym_choose(2, "type");
    fr::HttpRequest req; fr::HttpResponse res;
    fr::Http &m = type ? (fr::Http&)res : (fr::Http&)req;
    static const char *eols[] = {"\r\n", "\n"};
    std::string eol = eols[sym_choose(2, "line end")];
    std::string d = (type ? "HTTP/1.1 200 OK" : sym_choose(2, "method") ? "GET / HTTP/1.1" : "POST / HTTP/1.1") + eol;
    static const char bytes[] = "a=1";
    if(part < 2)
    {
        // PART 0: any value of a single content length; PART 1: two of them
        std::string v = sym_string(sym_choose(sym_param("N", 3) + 1, "size"), "length"), w;
        if(sym_param("DIGITS", 0)) { v = std::string(sym_param("DIGITS", 0) - v.size(), '0' + (char)sym_choose(2, "leading")) + v; }
        for(unsigned char c : v) sym_assume(c != 10);
        if(!v.empty()) sym_assume(v.back() != 13);
        static const char *names[] = {"Content-Length:", "content-length: ", "CONTENT-LENGTH:\t"};
        d += names[part ? 1 : sym_choose(3, "name")] + v + eol;
        if(part)
        {
            w = sym_string(sym_choose(sym_param("N", 3) + 1, "other size"), "other");
            for(unsigned char c : w) sym_assume(c != 10);
            if(!w.empty()) sym_assume(w.back() != 13);
            if(sym_choose(2, "between")) d += "Host: h" + eol;
            d += "Content-length: " + w + eol;
        }
        d += "X: y" + eol + eol;
        size_t have = sym_choose(4, "body");
        d += std::string(bytes, have);
        S st = feed(m, d);
        sym_observe("status", (uint64_t)st);
        uint64_t n = 0, o = 0;
        bool ok = length_of(v, n);
        if(part)
        {
            bool ok2 = length_of(w, o);
            if(!ok || !ok2 || n != o) { sym_check(st == S::ParseError, "lengths which aren't the same number are rejected"); sym_reach("conflict"); return 0; }
            if(st == S::ParseError) { sym_check(!same_str(v, w), "the same length may be declared twice"); return 0; }
        }
        if(!ok) { sym_check(st == S::ParseError, "what isn't a number of bytes is rejected"); sym_reach("rejected"); }
        else if(n > have) { sym_check(st == S::NotEnoughData, "the rest of the body is waited for"); sym_reach("waiting"); }
        else { sym_check(st == S::Success, "the body is complete"); sym_check(m.get_body() == std::string(bytes, n), "the body has the length which was declared"); sym_reach("complete"); }
    }
    else
    {
        // any line with a chunk's size, and any two bytes behind its data
        if(!type) { sym_reach("done"); return 0; }
        std::string line = sym_string(sym_choose(sym_param("N", 3) + 1, "size"), "line");
        for(unsigned char c : line) sym_assume((c != 13) & (c != 10) & (c != 0));
        static const char *prefixes[] = {"", "0", "2", "fffffffffffffff", "00000000000000000"};
        line = prefixes[sym_choose(5, "prefix")] + line;
        std::string tail = sym_string(2, "behind");
        size_t have = sym_choose(4, "data");
        std::string data(bytes, have);
        d += "Transfer-Encoding: chunked" + eol + eol + line + "\r\n" + data + tail + "0\r\n\r\n";
        S st = feed(m, d);
        sym_observe("status", (uint64_t)st);
        // chunk-size = 1*HEXDIG, followed by extensions
        size_t i = 0; uint64_t n = 0; bool ok = false, big = false;
        for(; i < line.size() && hex((unsigned char)line[i]) >= 0; i++) { ok = true; big |= n >> 60 != 0; n = n << 4 | (unsigned)hex((unsigned char)line[i]); }
        size_t digits = i;
        while(i < line.size() && (line[i] == ' ' || line[i] == '\t')) i++;
        if(i < line.size() && line[i] != ';') ok = false;
        if(!ok || big) { sym_check(st == S::ParseError, "what isn't a chunk's size is rejected"); sym_reach("rejected"); return 0; }
        if(n == 0) sym_kill();      // the last one: see C23
        std::string rest = data + tail + "0\r\n\r\n";
        if(n > rest.size() - 2) { sym_check(st == S::NotEnoughData, "the rest of the chunk is waited for"); sym_reach("waiting"); return 0; }
        if(rest[n] != 13 || rest[n + 1] != 10) { sym_check(st == S::ParseError, "a chunk's data has the size which was declared"); sym_reach("wrong size"); return 0; }
        if(n == have) { sym_check(st == S::Success && same_str(m.get_body(), data), "the body is what the chunk contains"); sym_reach("complete"); }
        (void)digits;
    }
    sym_reach("done");
    return 0;
}
