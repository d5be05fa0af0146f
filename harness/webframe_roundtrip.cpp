// A WebSocket frame goes out in RFC 6455's format and comes in again as it was, whatever the transport does.
#include <frnetlib/WebFrame.h>
#include "fake_socket.h"
typedef fr::Socket::Status S;
typedef fr::WebFrame::Opcode Op;
// the frame at 'pos' of what went out: its length, and the payload unmasked
static size_t wire_frame(const std::string &w, size_t pos, bool client, uint8_t op, bool fin, const std::string &payload)
{
    size_t n = payload.size(), h = n <= 125 ? 2 : n <= 65535 ? 4 : 10, total = h + (client ? 4 : 0) + n;
    sym_check(w.size() >= pos + total, "the whole frame is sent");
    const unsigned char *b = (const unsigned char*)w.data() + pos;
    sym_check(b[0] == (uint8_t)((fin ? 0x80 : 0) | op), "FIN bit, reserved bits and opcode");
    sym_check((b[1] >> 7) == (client ? 1 : 0), "clients mask, servers don't");
    sym_check((b[1] & 0x7f) == (n <= 125 ? n : n <= 65535 ? 126 : 127), "the shortest form of the length is used");
    uint64_t len = b[1] & 0x7f;
    if(h > 2) { len = 0; for(size_t i = 2; i < h; i++) len = len << 8 | b[i]; }
    sym_check(len == n, "the length is big endian");
    const unsigned char *p = b + h + (client ? 4 : 0), *m = b + h;
    bool ok = true;
    for(size_t i = 0; i < n; i++) ok &= (p[i] ^ (client ? m[i % 4] : 0)) == (unsigned char)payload[i];
    sym_check(ok, "the payload is sent, masked if it has to be");
    return total;
}
int main()
{
    static const uint32_t sizes[] = {0, 1, 2, 3, 5, 125, 126, 127, 256, 65535, 65536, 65537, 1048577};
    unsigned lo = sym_param("LO", 0), hi = sym_param("HI", 9);
    uint32_t n = sizes[lo + sym_choose(hi - lo, "size")];
    std::string payload(n, 'x');
    if(n <= 300) sym_make(&payload[0], n, "payload");
    else { uint32_t at[] = {0, 1, 2, 3, n / 2, n - 2, n - 1}; for(uint32_t a : at) sym_make(&payload[a], 1, "payload"); }
    uint8_t op = sym_val<uint8_t>("opcode"), fb = sym_val<uint8_t>("final");
    sym_assume(op <= 15);
    bool fin = fb & 1, client = sym_choose(2, "client");
    fr::ClientWebFrame cf; fr::ServerWebFrame sf;
    fr::WebFrame &f = client ? (fr::WebFrame&)cf : (fr::WebFrame&)sf;
    sym_check(f.get_opcode() == Op::Text && f.is_final() && f.get_payload().empty(), "a new frame is an empty, final text frame");
    f.set_payload(payload); f.set_opcode((Op)op); f.set_final(fin);
    FakeSocket tx; tx.stalls = sym_param("TXSTALLS", 1);
    sym_check(tx.send(f) == S::Success, "sent");
    sym_check(same_str(f.get_payload(), payload) && (uint8_t)f.get_opcode() == op && f.is_final() == fin, "sending leaves the frame as it is");
    size_t one = wire_frame(tx.out, 0, client, op, fin, payload);
    sym_check(tx.out.size() == one, "and nothing else is sent");
    tx.stalls = 0;
    sym_check(tx.send(f) == S::Success, "sent again");
    wire_frame(tx.out, one, client, op, fin, payload);
    FakeSocket rx; rx.in = tx.out;
    rx.cuts = n <= 130 ? sym_param("CUTS", 1) : 0; rx.stalls = sym_param("STALLS", 1);
    uint32_t limit = 0;
    if(sym_choose(2, "limit")) limit = sym_choose(2, "exact") ? n : n + 1;
    rx.set_max_receive_size(limit);
    fr::ClientWebFrame cr; fr::ServerWebFrame sr;
    fr::WebFrame &r = client ? (fr::WebFrame&)sr : (fr::WebFrame&)cr;
    r.set_payload("something old"); r.set_opcode(Op::Pong);
    for(int i = 0; i < 2; i++)
    {
        size_t start = rx.rpos;
        S st; unsigned tries = 0;
        do { st = rx.receive(r); if(st == S::WouldBlock) sym_check(rx.rpos == start, "WouldBlock means that nothing has been lost"); } while(st == S::WouldBlock && ++tries < 5);
        sym_observe("status", (uint64_t)st);
        sym_check(st == S::Success, "received");
        sym_check((uint8_t)r.get_opcode() == op && r.is_final() == fin && same_str(r.get_payload(), payload), "what has been sent is received");
        sym_check(rx.rpos == start + one, "exactly one frame is consumed");
        sym_reach(client ? "masked" : "unmasked");
    }
    sym_reach("done");
    return 0;
}
