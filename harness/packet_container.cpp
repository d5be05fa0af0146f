// Strings, containers, nesting and Packetable objects: round trip over the wire and wire format.
#include <frnetlib/Packet.h>
#include "fake_socket.h"
struct Obj : public fr::Packetable
{
    uint16_t a = 0; std::string b; std::vector<uint8_t> c;
    void pack(fr::Packet &d) const override { d << a << b << c; }
    void unpack(fr::Packet &s) override { s >> a >> b >> c; }
};
static fr::Packet over(const fr::Packet &p, std::string &wire, bool observe = true)
{
    FakeSocket s;
    sym_check(s.send(p) == fr::Socket::Status::Success, "sent");
    wire = s.out;
    if(observe) sym_observe_str("wire", wire);   // the order of an unordered map is anyone's
    s.in = s.out;
    fr::Packet q;
    // the receiving side may have used its packet before
    q << (uint32_t)0x11223344 << std::string("old");
    sym_check(s.receive(q) == fr::Socket::Status::Success, "received");
    return q;
}
static std::string be32(uint32_t v) { std::string s; for(int i = 3; i >= 0; i--) s += (char)(v >> (8 * i)); return s; }
static std::string be16(uint16_t v) { std::string s; s += (char)(v >> 8); s += (char)v; return s; }
static void wirecheck(const std::string &w, const std::string &body)
{
    sym_check(w.size() == body.size() + 4, "wire size");
    sym_check(same_str(w, be32((uint32_t)body.size()) + body), "wire contents");
}
static std::string str(const char *n) { return sym_string(sym_choose(sym_param("N", 3) + 1, "string length"), n); }
#ifdef __cpp_lib_string_view
enum { KINDS = 1 };     // the rest is the same code as in C++14
#else
enum { KINDS = 15 };
#endif
int main()
{
    std::string w;
    switch(sym_param("KIND", 0) + sym_choose(sym_param("KINDS", KINDS), "kind"))
    {
        case 0:
        {
            std::string a = str("a"), b = str("b"); uint16_t x = sym_val<uint16_t>("x");
            fr::Packet p; p << a << x << b;
            fr::Packet q = over(p, w);
            wirecheck(w, be32(a.size()) + a + be16(x) + be32(b.size()) + b);
            std::string ra = "junk", rb; uint16_t rx; q >> ra >> rx >> rb;
            sym_check(same_str(a, ra) && same_str(b, rb) && x == rx, "strings survive");
            sym_check(q.get_bytes_remaining() == 0, "nothing left"); sym_reach("string");
            break;
        }
        case 1:
        {
            // a C string ends at its terminator
            std::string a = str("a"); fr::Packet p; p << a.c_str(); std::string r; fr::Packet q = over(p, w); q >> r;
            size_t n = strlen(a.c_str());
            sym_check(r.size() == n && same_bytes(r.data(), a.data(), n), "C string survives");
            break;
        }
        case 2:
        {
            std::vector<uint16_t> v(sym_choose(sym_param("N", 3) + 1, "n")); for(auto &e : v) e = sym_val<uint16_t>("e");
            fr::Packet p; p << v; fr::Packet q = over(p, w);
            std::string body = be32(v.size()); for(auto e : v) body += be16(e);
            wirecheck(w, body);
            std::vector<uint16_t> r(2, 9); q >> r;
            bool ok = r.size() == v.size(); for(size_t i = 0; ok && i < v.size(); i++) ok &= r[i] == v[i];
            sym_check(ok, "vector survives"); sym_reach("vector");
            break;
        }
        case 3:
        {
            std::vector<std::string> v(sym_choose(3, "n")); for(auto &e : v) e = str("e");
            fr::Packet p; p << v; fr::Packet q = over(p, w);
            std::vector<std::string> r(1, "old"); q >> r;
            sym_check(r.size() == v.size(), "size"); for(size_t i = 0; i < v.size(); i++) sym_check(same_str(r[i], v[i]), "nested string survives");
            sym_check(q.get_bytes_remaining() == 0, "nothing left");
            break;
        }
        case 4:
        {
            size_t n = sym_choose(sym_param("N", 3) + 1, "n"); std::vector<bool> v(n); std::vector<uint8_t> e(n);
            for(size_t i = 0; i < n; i++) { e[i] = sym_val<uint8_t>("e") & 1; v[i] = e[i]; }
            fr::Packet p; p << v; fr::Packet q = over(p, w);
            std::vector<bool> r(4, true); q >> r;
            sym_check(r.size() == n, "size"); for(size_t i = 0; i < n; i++) sym_check(r[i] == (bool)e[i], "vector<bool> survives");
            break;
        }
        case 5:
        {
            std::map<uint8_t, uint16_t> m; size_t n = sym_choose(3, "n"); for(size_t i = 0; i < n; i++) { uint8_t k = sym_val<uint8_t>("k"); m[k] = sym_val<uint16_t>("v"); }
            fr::Packet p; p << m; fr::Packet q = over(p, w);
            std::map<uint8_t, uint16_t> r; r[5] = 6; r[200] = 1; q >> r;
            sym_check(r.size() == m.size(), "map size");
            auto a = r.begin(); for(auto &x : m) { sym_check(a->first == x.first && a->second == x.second, "map survives"); ++a; }
            sym_reach("map");
            break;
        }
        case 6:
        {
            std::map<std::string, std::vector<uint8_t>> m; uint8_t x = sym_val<uint8_t>("x"), y = sym_val<uint8_t>("y"); m["k1"] = {x, y}; if(sym_choose(2, "two")) m["a"];
            fr::Packet p; p << m; fr::Packet q = over(p, w);
            std::map<std::string, std::vector<uint8_t>> r; r["old"].push_back(1); q >> r;
            sym_check(r == m, "map of vectors survives");
            break;
        }
        case 7:
        {
            std::unordered_map<uint8_t, uint16_t> m; size_t n = sym_choose(4, "n"); for(size_t i = 0; i < n; i++) { uint8_t k = (uint8_t)sym_choose(3, "k"); m[k] = sym_val<uint16_t>("v"); }
            fr::Packet p; p << m; fr::Packet q = over(p, w);
            std::unordered_map<uint8_t, uint16_t> r; r[5] = 6; q >> r;
            sym_check(r.size() == m.size(), "unordered map size"); for(auto &x : m) sym_check(r.count(x.first) && r[x.first] == x.second, "unordered map survives");
            break;
        }
        case 8:
        {
            std::pair<uint32_t, std::string> v; v.first = sym_val<uint32_t>("x"); v.second = str("s"); fr::Packet p; p << v; fr::Packet q = over(p, w);
            wirecheck(w, be32(v.first) + be32(v.second.size()) + v.second);
            std::pair<uint32_t, std::string> r; q >> r; sym_check(r.first == v.first && same_str(r.second, v.second), "pair survives");
            break;
        }
        case 9:
        {
            Obj o; o.a = sym_val<uint16_t>("a"); o.b = str("b"); o.c.resize(sym_choose(3, "c")); for(auto &x : o.c) x = sym_val<uint8_t>("x");
            uint8_t t = sym_val<uint8_t>("t");
            fr::Packet p; p << o << t; fr::Packet q = over(p, w);
            Obj r; r.c.resize(1); uint8_t rt; q >> r >> rt;
            sym_check(r.a == o.a && same_str(r.b, o.b) && r.c == o.c && rt == t, "Packetable survives"); sym_reach("packetable");
            break;
        }
        case 10:
        {
            uint32_t a = sym_val<uint32_t>("a"); std::string b = str("b"); uint8_t c = sym_val<uint8_t>("c");
            fr::Packet p{a, b, c}; fr::Packet p2; p2.add(a, b, c); fr::Packet p3; p3 << a << b << c;
            std::string w2, w3; over(p, w); over(p2, w2); over(p3, w3);
            sym_check(same_str(w, w3) && same_str(w2, w3), "the constructor, add and << agree");
            break;
        }
        case 11:
        {
            std::vector<uint16_t> v(2); for(auto &e : v) e = sym_val<uint16_t>("e"); std::string raw = str("raw");
            fr::Packet p; p.add_range(v.begin(), v.end()); p.add_raw(raw.data(), raw.size());
            fr::Packet q = over(p, w); wirecheck(w, be32(2) + be16(v[0]) + be16(v[1]) + raw);
            uint32_t n; uint16_t x, y; q >> n >> x >> y; sym_check(n == 2, "a range has a length"); std::string r(raw.size(), 0); q.extract_raw(&r[0], raw.size());
            sym_check(x == v[0] && y == v[1] && same_str(r, raw), "ranges and raw data survive");
            break;
        }
        case 12:
        {
            std::vector<std::vector<uint8_t>> v(sym_choose(3, "n")); for(auto &e : v) { e.resize(sym_choose(3, "m")); for(auto &x : e) x = sym_val<uint8_t>("x"); }
            fr::Packet p; p << v; fr::Packet q = over(p, w); std::vector<std::vector<uint8_t>> r(3); q >> r; sym_check(r == v, "nested vectors survive");
            break;
        }
        case 13:
        {
            std::vector<Obj> v(sym_choose(3, "n")); for(auto &o : v) { o.a = sym_val<uint16_t>("a"); o.b = str("b"); }
            std::vector<std::pair<uint8_t, bool>> u(1, {sym_val<uint8_t>("u"), true});
            fr::Packet p; p << v << u; fr::Packet q = over(p, w); std::vector<Obj> r(1); std::vector<std::pair<uint8_t, bool>> ru; q >> r >> ru;
            sym_check(r.size() == v.size() && ru.size() == 1 && ru[0].first == u[0].first && ru[0].second, "size"); for(size_t i = 0; i < v.size(); i++) sym_check(r[i].a == v[i].a && same_str(r[i].b, v[i].b) && r[i].c.empty(), "objects survive");
            break;
        }
        case 14:
        {
            // longer strings and vectors: past every small-buffer optimisation and one reallocation
            static const size_t lens[] = {11, 12, 15, 16, 17, 31, 64, 255, 256, 300};
            std::string a = sym_string(lens[sym_choose(10, "long length")], "long"); uint32_t t = sym_val<uint32_t>("t");
            fr::Packet p; p << a << t; fr::Packet q = over(p, w);
            wirecheck(w, be32(a.size()) + a + be32(t));
            std::string r; uint32_t rt; q >> r >> rt; sym_check(same_str(r, a) && rt == t, "a long string survives"); sym_reach("long");
            break;
        }
#ifdef __cpp_lib_string_view
        case 15:
        {
            std::string a = str("a"), b = str("b"); uint8_t t = sym_val<uint8_t>("t");
            fr::Packet p; p << std::string_view(a) << b << std::string_view(a) << t; fr::Packet q = over(p, w);
            wirecheck(w, be32(a.size()) + a + be32(b.size()) + b + be32(a.size()) + a + std::string(1, (char)t));
            std::string r; std::string_view v, u; uint8_t rt; q >> r >> v >> u >> rt;
            sym_check(same_str(r, a) && v.size() == b.size() && same_bytes(v.data(), b.data(), b.size()) && u.size() == a.size() && same_bytes(u.data(), a.data(), a.size()) && rt == t, "string views survive"); sym_reach("view");
            break;
        }
#endif
        case 16:
        {
            // many elements, arbitrary ones at both ends
            static const size_t counts[] = {127, 128, 255, 256, 257, 1000};
            size_t n = counts[sym_choose(6, "count")]; unsigned t = sym_val<uint8_t>("t");
            std::vector<uint32_t> v(n); std::vector<bool> b(n); std::vector<std::string> s(n); std::string want;
            for(size_t i = 0; i < n; i++) { v[i] = (uint32_t)(i * 0x01020305); b[i] = i % 3 == 0; s[i] = std::string(i % 7, (char)('a' + i % 26)); }
            v[0] = sym_val<uint32_t>("first"); v[n - 1] = sym_val<uint32_t>("last"); s[n - 1] = sym_string(2, "text");
            unsigned which = sym_choose(3, "elements");
            fr::Packet p; if(which == 0) p << v; else if(which == 1) p << b; else p << s;
            p << (uint8_t)t;
            fr::Packet q = over(p, w);
            if(which == 0) { for(auto e : v) want += be32(e); wirecheck(w, be32((uint32_t)n) + want + std::string(1, (char)t)); }
            if(which == 2) { for(auto &e : s) want += be32((uint32_t)e.size()) + e; wirecheck(w, be32((uint32_t)n) + want + std::string(1, (char)t)); }
            std::vector<uint32_t> rv; std::vector<bool> rb; std::vector<std::string> rs; uint8_t rt;
            if(which == 0) q >> rv; else if(which == 1) q >> rb; else q >> rs;
            q >> rt;
            bool ok = rt == t;
            if(which == 0) { ok &= rv.size() == n; for(size_t i = 0; i < rv.size() && i < n; i++) ok &= rv[i] == v[i]; }
            else if(which == 1) { ok &= rb.size() == n; for(size_t i = 0; i < rb.size() && i < n; i++) ok &= rb[i] == b[i]; }
            else { ok &= rs.size() == n; for(size_t i = 0; i < rs.size() && i < n; i++) ok &= same_str(rs[i], s[i]); }
            sym_check(ok, "every one of many elements survives"); sym_reach("many");
            break;
        }
        case 18:
        {
            // sizes which need more than 16 bits
            static const size_t sizes[] = {65535, 65536, 70001};
            size_t n = sizes[sym_choose(3, "size")]; std::string a(n, '.'); for(size_t i = 0; i < n; i += 97) a[i] = (char)(i / 97);
            sym_make(&a[0], 2, "beginning"); sym_make(&a[n - 2], 2, "end"); sym_make(&a[n / 2], 1, "middle"); uint16_t t = sym_val<uint16_t>("t"), rt;
            std::vector<uint8_t> v(a.begin(), a.end()), rv; std::string r; unsigned which = sym_choose(2, "elements");
            fr::Packet p; if(which == 0) p << a; else p << v;
            p << t; fr::Packet q = over(p, w); wirecheck(w, be32((uint32_t)n) + a + be16(t));
            if(which == 0) q >> r; else q >> rv;
            q >> rt; if(which == 1) r.assign(rv.begin(), rv.end());
            sym_check(same_str(r, a) && rt == t, "large ones survive"); sym_reach("large");
            break;
        }
        case 17:
        {
            std::map<uint16_t, uint32_t> m; std::unordered_map<std::string, uint16_t> u; size_t n = sym_choose(2, "count") ? 256 : 300;
            for(size_t i = 0; i < n; i++) { m[(uint16_t)(i * 5)] = (uint32_t)(i * 0x01020305); u["k" + std::to_string(i)] = (uint16_t)i; }
            m[(uint16_t)(n * 5 - 5)] = sym_val<uint32_t>("last"); u["k0"] = sym_val<uint16_t>("first");
            bool which = sym_choose(2, "map"); uint8_t t = sym_val<uint8_t>("t"), rt;
            fr::Packet p; if(which) p << m; else p << u;
            p << t; fr::Packet q = over(p, w, which);
            std::map<uint16_t, uint32_t> rm; std::unordered_map<std::string, uint16_t> ru; if(which) q >> rm; else q >> ru;
            q >> rt; bool ok = t == rt;
            if(which) { ok &= rm.size() == n; auto a = rm.begin(); for(auto &x : m) { if(a == rm.end()) { ok = false; break; } ok &= a->first == x.first && a->second == x.second; ++a; } }
            else { ok &= ru.size() == n; for(auto &x : u) { auto it = ru.find(x.first); ok &= it != ru.end() && it->second == x.second; } }
            sym_check(ok, "every one of many elements of a map survives"); sym_reach("many");
            break;
        }
    }
    sym_reach("done");
    return 0;
}
