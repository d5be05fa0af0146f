// Receiving a WebSocket frame from a peer which sends anything, over a transport which does anything.
#include <frnetlib/WebFrame.h>
#include "fake_socket.h"
typedef fr::Socket::Status S;
int main()
{
    unsigned N = sym_param("N", 10);
    bool client = sym_choose(2, "client");
    fr::ClientWebFrame cf; fr::ServerWebFrame sf;
    fr::WebFrame &f = client ? (fr::WebFrame&)cf : (fr::WebFrame&)sf;
    f.set_payload("old payload");
    FakeSocket s; s.in = sym_string(N, "wire");
    s.end_status = S::Disconnected;
    unsigned mode = sym_choose(3, "mode");
    if(mode == 1) { s.stalls = sym_param("STALLS", 2); s.cuts = sym_param("CUTS", 1); }
    if(mode == 2) { s.faults = 1; s.timeouts = true; }
    uint32_t limit = sym_val<uint32_t>("limit"); sym_assume((limit >= 1) & (limit <= sym_param("LIMIT", 12)));
    s.set_max_receive_size(limit);
    sym_alloc_limit(4096, 1);
    // what RFC 6455 says is on the wire
    const unsigned char *b = (const unsigned char*)s.in.data();
    bool masked = b[1] >> 7; uint64_t len = b[1] & 0x7f; size_t h = 2;
    bool cut_len = false;
    if(len == 126) { if(N < 4) cut_len = true; else { len = b[2] << 8 | b[3]; h = 4; } }
    else if(len == 127) { if(N < 10) cut_len = true; else { len = 0; for(int i = 2; i < 10; i++) len = len << 8 | b[i]; h = 10; } }
    size_t stalls = s.stalls;
    S st = s.receive(f);
    sym_observe("status", (uint64_t)st); sym_observe("consumed", s.rpos);
    sym_check(s.max_read <= 16, "never reads more than it's allowed to");
    bool fault = mode == 2 && s.faults == 0;
    if(st == S::WouldBlock) { sym_check(mode == 1 && s.stalls < stalls && s.rpos == 0, "WouldBlock means that nothing has been lost"); sym_reach("would block"); }
    else if(fault) { sym_check(s.rpos < 2 && s.rpos == 0 ? st == s.last_fault : st != S::Success && st != S::WouldBlock && st != S::Timeout, "a frame lost half way isn't received, and can't be taken for one which can be"); sym_reach("failed"); }
    else if(masked == client) { sym_check(st == S::Error, "frames of clients have to be masked, those of servers mustn't be"); sym_reach("mask rule"); }
    else if(cut_len) { sym_check(st == S::Disconnected, "an incomplete frame isn't received"); }
    else if(len > limit) { sym_check(st == S::MaxPacketSizeExceeded, "payloads above the limit are rejected"); sym_check(s.rpos <= h, "without reading them"); sym_reach("too big"); }
    else if(N < h + (masked ? 4 : 0) + len) { sym_check(st == S::Disconnected, "an incomplete frame isn't received"); sym_reach("incomplete"); }
    else
    {
        sym_check(st == S::Success, "a valid frame is received");
        size_t start = h + (masked ? 4 : 0);
        sym_check(s.rpos == start + len, "exactly one frame is consumed");
        std::string p = f.get_payload();
        sym_check(p.size() == len, "the payload has the length which was declared");
        bool ok = true;
        for(size_t i = 0; i < p.size(); i++) ok &= (uint8_t)p[i] == (uint8_t)(b[start + i] ^ (masked ? b[h + i % 4] : 0));
        sym_check(ok, "and is unmasked");
        sym_check((uint8_t)f.get_opcode() == (b[0] & 0xf) && f.is_final() == (b[0] >> 7), "opcode and FIN bit");
        sym_reach("received");
    }
    sym_reach("done");
    return 0;
}
