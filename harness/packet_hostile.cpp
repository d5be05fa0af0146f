// Extraction from arbitrary bytes: a Packet whose whole contents are chosen by the peer either yields what the
// bytes say, or throws std::out_of_range. Nothing outside of the packet is read (the engine checks every access).
#include <frnetlib/Packet.h>
#include "fake_socket.h"
struct Obj : public fr::Packetable
{
    uint16_t a = 0; std::string b;
    void pack(fr::Packet &d) const override { d << a << b; }
    void unpack(fr::Packet &s) override { s >> a >> b; }
};
enum class E : uint32_t { a, b };
// reference reader
struct Rd
{
    const std::string &d; size_t p = 0; bool bad = false;
    uint64_t num(size_t n) { if(bad || d.size() - p < n) { bad = true; return 0; } uint64_t v = 0; for(size_t i = 0; i < n; i++) v = v << 8 | (unsigned char)d[p + i]; p += n; return v; }
    std::string str() { uint64_t n = num(4); if(bad || n > d.size() - p) { bad = true; return ""; } n = sym_concretize(n); std::string s = d.substr(p, n); p += n; return s; }
    uint32_t count() { return (uint32_t)num(4); }
};
template<typename F> static bool attempt(F f) { try { f(); } catch(const std::out_of_range &) { return false; } return true; }
#ifdef __cpp_lib_string_view
enum { KINDS = 1 };     // the rest is the same code as in C++14
#else
enum { KINDS = 21 };
#endif
int main()
{
    size_t n = sym_choose(sym_param("N", 6) + 1, "size");
    std::string data = sym_string(n, "data");
    fr::Packet p;
    FakeSocket s;
    uint32_t len = htonl((uint32_t)n);
    s.in.assign((char*)&len, 4); s.in += data;
    sym_check(s.receive(p) == fr::Socket::Status::Success, "received");
    sym_check(p.size() == n && p.get_cursor() == 0 && p.get_bytes_remaining() == n, "sizes");
    sym_alloc_limit(4096, 1);   // a hostile length must not decide how much is allocated
    Rd r{data};
    bool ok = true;
    switch(sym_param("KIND", 0) + sym_choose(KINDS, "kind"))
    {
        case 0: { uint8_t v = 0; ok = attempt([&] { p >> v; }); uint64_t e = r.num(1); sym_check(ok == !r.bad && (!ok || v == e), "uint8"); break; }
        case 1: { uint16_t v = 0; ok = attempt([&] { p >> v; }); uint64_t e = r.num(2); sym_check(ok == !r.bad && (!ok || v == e), "uint16"); break; }
        case 2: { uint32_t v = 0; ok = attempt([&] { p >> v; }); uint64_t e = r.num(4); sym_check(ok == !r.bad && (!ok || v == e), "uint32"); break; }
        case 3: { uint64_t v = 0; ok = attempt([&] { p >> v; }); uint64_t e = r.num(8); sym_check(ok == !r.bad && (!ok || v == e), "uint64"); break; }
        case 4: { int32_t v = 0; ok = attempt([&] { p >> v; }); uint64_t e = r.num(4); sym_check(ok == !r.bad && (!ok || (uint32_t)v == e), "int32"); break; }
        case 5: { double v = 0; ok = attempt([&] { p >> v; }); uint64_t e = r.num(8); sym_check(ok == !r.bad && (!ok || !memcmp(&v, &e, 8)), "double"); break; }
        case 6: { std::string v; ok = attempt([&] { p >> v; }); std::string e = r.str(); sym_check(ok == !r.bad && (!ok || same_str(v, e)), "string"); sym_reach(ok ? "string" : "rejected"); break; }
        case 7:
        {
            std::vector<uint8_t> v; ok = attempt([&] { p >> v; });
            uint32_t c = r.count(); bool bad = r.bad || c > n - r.p;
            sym_check(ok == !bad, "vector accepted iff its elements are there");
            if(ok) { r.p += c; sym_check(v.size() == c, "vector size"); for(size_t i = 0; i < v.size(); i++) sym_check(v[i] == (unsigned char)data[4 + i], "vector element"); sym_reach("vector"); }
            break;
        }
        case 8:
        {
            std::vector<std::string> v; ok = attempt([&] { p >> v; });
            uint32_t c = r.count(); std::vector<std::string> e; for(uint32_t i = 0; i < c && !r.bad; i++) e.push_back(r.str());
            sym_check(ok == !r.bad, "vector of strings accepted iff complete");
            if(ok) { sym_check(v.size() == e.size(), "size"); for(size_t i = 0; i < e.size(); i++) sym_check(same_str(v[i], e[i]), "string element"); }
            break;
        }
        case 9:
        {
            std::map<uint8_t, uint8_t> v; v[9] = 9; ok = attempt([&] { p >> v; });
            uint32_t c = r.count(); bool bad = r.bad || c > (n - r.p) / 2;
            sym_check(ok == !bad, "map accepted iff its elements are there");
            if(ok) { r.p += 2 * c; std::map<uint8_t, uint8_t> e; for(uint32_t i = 0; i < c; i++) e.emplace(data[4 + 2 * i], data[5 + 2 * i]); sym_check(v == e, "map"); }
            break;
        }
        case 10:
        {
            std::vector<bool> v; ok = attempt([&] { p >> v; });
            uint32_t c = r.count(); bool bad = r.bad || c > n - r.p;
            sym_check(ok == !bad, "vector<bool> accepted iff its elements are there");
            if(ok) { r.p += c; sym_check(v.size() == c, "size"); for(size_t i = 0; i < v.size(); i++) sym_check(v[i] == (data[4 + i] != 0), "vector<bool> element"); }
            break;
        }
        case 11: { Obj v; ok = attempt([&] { p >> v; }); uint64_t a = r.num(2); std::string e = r.str(); sym_check(ok == !r.bad && (!ok || (v.a == a && same_str(v.b, e))), "Packetable"); break; }
        case 12: { std::pair<uint8_t, uint16_t> v; ok = attempt([&] { p >> v; }); uint64_t a = r.num(1), b = r.num(2); sym_check(ok == !r.bad && (!ok || (v.first == a && v.second == b)), "pair"); break; }
        case 13:
        {
            char buf[16]; size_t want = sym_val<size_t>("want"); sym_assume(want <= sizeof buf || want > n);
            ok = attempt([&] { p.extract_raw(buf, want); });
            sym_check(ok == (want <= n), "raw data of any size");
            if(ok) { want = sym_concretize(want); sym_check(same_bytes(buf, data.data(), want) && p.get_cursor() == want, "raw data"); r.p = want; }
            break;
        }
        case 14: { int16_t v = 0; ok = attempt([&] { p >> v; }); uint64_t e = r.num(2); sym_check(ok == !r.bad && (!ok || (uint16_t)v == e), "int16"); break; }
        case 15: { int64_t v = 0; ok = attempt([&] { p >> v; }); uint64_t e = r.num(8); sym_check(ok == !r.bad && (!ok || (uint64_t)v == e), "int64"); break; }
        case 16: { float v = 0; ok = attempt([&] { p >> v; }); uint32_t e = r.num(4); sym_check(ok == !r.bad && (!ok || !memcmp(&v, &e, 4)), "float"); break; }
        case 17: { E v = E::a; ok = attempt([&] { p >> v; }); uint32_t e = r.num(4); sym_check(ok == !r.bad && (!ok || (uint32_t)v == e), "enum"); break; }
        case 18: { bool v = false; ok = attempt([&] { p >> v; }); uint64_t e = r.num(1); sym_check(ok == !r.bad && (!ok || v == (e != 0)), "bool"); break; }
        case 19:
        {
            std::unordered_map<uint8_t, uint8_t> v; v[9] = 9; ok = attempt([&] { p >> v; });
            uint32_t c = r.count(); bool bad = r.bad || c > (n - r.p) / 2;
            sym_check(ok == !bad, "unordered_map accepted iff its elements are there");
            if(ok)
            {
                r.p += 2 * c;
                std::map<uint8_t, uint8_t> e;
                for(uint32_t i = 0; i < c; i++) e.emplace(data[4 + 2 * i], data[5 + 2 * i]);
                sym_check(v.size() == e.size(), "unordered_map size");
                for(auto &x : e) { auto f = v.find(x.first); sym_check(f != v.end() && f->second == x.second, "unordered_map"); }
            }
            break;
        }
        case 20:
        {
            std::map<std::string, uint8_t> v; ok = attempt([&] { p >> v; });
            uint32_t c = r.count(); std::map<std::string, uint8_t> e;
            for(uint32_t i = 0; i < c && !r.bad; i++) { std::string k = r.str(); uint8_t x = r.num(1); if(!r.bad) e.emplace(k, x); }
            sym_check(ok == !r.bad && (!ok || v == e), "map of strings");
            break;
        }
#ifdef __cpp_lib_string_view
        case 21: { std::string_view v; ok = attempt([&] { p >> v; }); std::string e = r.str(); sym_check(ok == !r.bad && (!ok || (v.size() == e.size() && same_bytes(v.data(), e.data(), e.size()))), "string_view"); sym_reach("view"); break; }
#endif
    }
    if(ok) sym_check(p.get_cursor() == r.p, "exactly what was extracted has been consumed");
    sym_check(p.get_cursor() <= n && p.get_bytes_remaining() == n - p.get_cursor(), "the cursor stays inside of the packet");
    sym_observe("cursor", p.get_cursor());
    // the packet can still be used
    p.set_cursor(0);
    if(n) { uint8_t v; p >> v; sym_check(v == (unsigned char)data[0], "and the packet stays usable"); }
    sym_reach("done");
    return 0;
}
