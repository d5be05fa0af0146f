// Packets sent one after the other arrive one by one, however the stream is cut up, stalled or broken off.
#include <frnetlib/Packet.h>
#include "fake_socket.h"
typedef fr::Socket::Status S;
int main()
{
    unsigned N = sym_param("N", 3);
    FakeSocket tx; tx.stalls = sym_param("TXSTALLS", 1); tx.send_cuts = true;
    std::string body[2];
    for(int i = 0; i < 2; i++)
    {
        if(sym_param("BIG", 0) && i == 0)
        {
            static const unsigned sizes[] = {255, 256, 4095, 4096, 4097, 65535, 65536, 70000};
            body[i].assign(sizes[sym_choose(8, "large size")], 'b');
            sym_make(&body[i][0], 1, "first"); sym_make(&body[i][body[i].size() - 1], 1, "last");
        }
        else body[i] = sym_string(sym_choose(N + 1, "body size"), "body");
        fr::Packet p; p.add_raw(body[i].data(), body[i].size());
        sym_check(tx.send(p) == S::Success, "sent");
    }
    sym_check(tx.out.size() == 8 + body[0].size() + body[1].size(), "what is sent is the length and the data, exactly once");
    FakeSocket rx;
    rx.in = tx.out;
    rx.cuts = sym_param("CUTS", 2); rx.stalls = sym_param("STALLS", 2);
    unsigned mode = sym_choose(4, "mode");
    if(mode == 1) { rx.faults = 1; rx.timeouts = true; }
    if(mode == 2) rx.in.resize(sym_cut(rx.in.size(), "cut off") - 1);
    uint32_t limit = 0;
    if(mode == 3) { limit = sym_val<uint32_t>("limit"); rx.set_max_receive_size(limit); }
    fr::Packet p;
    p << std::string("used before") << (uint8_t)1;
    uint8_t b; std::string old; p >> old >> b;
    for(int i = 0; i < 2; i++)
    {
        size_t start = rx.rpos;
        S st;
        unsigned tries = 0;
        do { st = rx.receive(p); } while(st == S::WouldBlock && ++tries < 10);
        sym_check(st != S::WouldBlock, "it doesn't stall forever");
        if(st == S::Success)
        {
            sym_check(p.size() == body[i].size() && p.get_cursor() == 0 && p.get_bytes_remaining() == body[i].size(), "the packet has the size which was sent");
            std::string r(body[i].size(), 0); p.extract_raw(&r[0], r.size());
            sym_check(same_str(r, body[i]), "and the contents");
            sym_check(!limit || body[i].size() <= limit, "the size limit is kept");
            sym_check(rx.faults == (mode == 1), "a read which fails or times out ends the receive");
            sym_check(rx.rpos == start + 4 + body[i].size(), "exactly one packet is consumed");
            sym_reach("received");
            continue;
        }
        sym_observe("status", (uint64_t)st);
        if(st == S::MaxPacketSizeExceeded) { sym_check(limit && body[i].size() > limit, "only a packet which is too big is rejected"); sym_reach("too big"); break; }
        sym_check(mode == 1 || mode == 2, "without a failure everything arrives");
        if(rx.rpos != start) sym_check(st == S::Disconnected || st == S::ReceiveError, "a packet which was lost half way can't be taken for one which can be received again");
        else sym_check(st == rx.last_fault, "the status of the socket is passed on");
        sym_reach("broken off");
        break;
    }
    sym_reach("done");
    return 0;
}
