// Every scalar put into a Packet comes back bit for bit, and is big-endian on the wire.
#include <frnetlib/Packet.h>
#include "fake_socket.h"
enum class E32 : uint32_t { A };
enum class E8 : uint8_t { A };
enum class EI : int32_t { A };
template<typename T> static void one(size_t wire)
{
    T v; sym_make(&v, sizeof v, "value");
    uint64_t bits = 0; memcpy(&bits, &v, sizeof v);
    uint8_t pre = sym_val<uint8_t>("before"); uint16_t post = sym_val<uint16_t>("after");
    fr::Packet p;
    p << pre << v << post;
    sym_check(p.size() == 3 + wire, "a value takes the size of its type");
    FakeSocket s;
    sym_check(s.send(p) == fr::Socket::Status::Success, "sent");
    sym_check(s.out.size() == 7 + wire, "wire size");
    sym_observe_str("wire", s.out);
    const unsigned char *w = (const unsigned char*)s.out.data();
    uint64_t got = 0;
    for(size_t i = 0; i < wire; i++) got = got << 8 | w[5 + i];
    sym_check(w[0] == 0 && w[1] == 0 && w[2] == 0 && w[3] == 3 + wire, "the length prefix is big-endian");
    sym_check(w[4] == pre && got == bits, "the value is big-endian on the wire");
    sym_check(w[5 + wire] == post >> 8 && w[6 + wire] == (post & 255), "the next value follows");
    s.in = s.out;
    fr::Packet q;
    sym_check(s.receive(q) == fr::Socket::Status::Success, "received");
    uint8_t pre2; uint16_t post2; T r;
    q >> pre2 >> r >> post2;
    sym_check(pre2 == pre && post2 == post, "neighbours are intact");
    sym_check(memcmp(&r, &v, sizeof v) == 0, "the value survives the round trip");
    sym_check(q.get_bytes_remaining() == 0, "nothing is left");
    T r2; p >> pre2 >> r2;
    sym_check(memcmp(&r2, &v, sizeof v) == 0, "and can be read from the sender's packet too");
    sym_reach("value");
}
static void boolean()
{
    uint8_t raw = sym_val<uint8_t>("raw");
    bool v = raw & 1;
    fr::Packet p; p << v;
    sym_check(p.size() == 1, "a bool takes one byte");
    bool r = !v; p >> r;
    sym_check(r == v, "a bool survives");
    FakeSocket s; s.send(p);
    sym_check(s.out.size() == 5 && s.out[4] == (v ? 1 : 0), "a bool is 0 or 1 on the wire");
    // what arrives may be any byte: it still has to become a proper bool
    s.in.assign("\0\0\0\1", 4); s.in += (char)raw;
    fr::Packet q; s.receive(q);
    bool b; q >> b;
    unsigned char o; memcpy(&o, &b, 1);
    sym_check(o == (raw != 0), "any byte but zero is true");
    sym_reach("value");
}
int main()
{
    switch(sym_choose(14, "type"))
    {
        case 0: one<uint8_t>(1); break;
        case 1: one<uint16_t>(2); break;
        case 2: one<uint32_t>(4); break;
        case 3: one<uint64_t>(8); break;
        case 4: one<int16_t>(2); break;
        case 5: one<int32_t>(4); break;
        case 6: one<int64_t>(8); break;
        case 7: one<float>(4); break;
        case 8: one<double>(8); break;
        case 9: one<E32>(4); break;
        case 10: one<E8>(4); break;
        case 11: one<EI>(4); break;
        case 12: boolean(); break;
        case 13: { fr::Packet p; p << (uint8_t)1; p.clear(); sym_check(p.size() == 0 && p.get_bytes_remaining() == 0, "clear empties a packet"); uint32_t v = sym_val<uint32_t>("v"), r; p << v; p >> r; sym_check(r == v, "and it can be used again"); break; }
    }
    sym_reach("done");
    return 0;
}
