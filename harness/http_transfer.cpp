// Messages sent through a socket arrive at the other end, however the stream is cut up, stalled or broken off.
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include "fake_socket.h"
#include "tokens.h"
typedef fr::Socket::Status S;
template<typename M> static void run(const char *remote)
{
    unsigned N = sym_param("N", 2);
    M q;
    if(sym_param("TYPE", 0) == 0) { q.set_type(sym_choose(2, "method") ? fr::Http::RequestType::Put : fr::Http::RequestType::Get); q.set_uri("/" + token(0, 1, "?", "uri")); q.get("g") = token(1, 1, "&", "parameter"); }
    else q.set_status(fr::Http::RequestStatus::NotFound);
    q.header("x") = token(1, 1, "", "header");
    std::string body = sym_string(sym_choose(N + 1, "body size"), "body");
    if(unsigned big = sym_param("BIG", 0)) { static const unsigned sizes[] = {3900, 4096, 4097, 9000}; body.insert(body.size() / 2, big == 1 ? sizes[sym_choose(4, "large size")] : big, 'b'); }
    q.set_body(body);
    FakeSocket tx;
    bool sender = sym_choose(2, "side");
    if(sender) { tx.stalls = sym_param("TXSTALLS", 2); tx.send_cuts = true; tx.faults = sym_param("TXFAULTS", 1); tx.timeouts = true; }
    std::string expect = q.construct(remote);
    fr::Socket &txs = tx;
    S st = txs.send(q);
    if(st != S::Success) { sym_check(tx.last_fault == st, "the status of the socket is passed on"); sym_check(tx.out.size() <= expect.size() && same_bytes(tx.out.data(), expect.data(), tx.out.size()), "what was sent is the beginning of the message"); sym_reach("send failed"); return; }
    sym_check(same_str(tx.out, expect), "the message is sent, exactly once");
    sym_reach("sent");
    if(sender) { sym_check(tx.faults == sym_param("TXFAULTS", 1), "a write which fails or times out ends the transfer"); return; }
    FakeSocket rx;
    rx.in = tx.out;
    rx.cuts = sym_param("CUTS", 1); rx.stalls = sym_param("STALLS", 1);
    unsigned mode = sym_choose(3, "mode");
    if(mode == 1) { rx.faults = 1; rx.timeouts = true; }
    if(mode == 2) rx.in.resize(sym_cut(rx.in.size(), "cut off") - 1);
    M r;
    fr::Socket &rxs = rx;
    unsigned tries = 0;
    do { st = rxs.receive(r); } while(st == S::WouldBlock && ++tries < 4);
    sym_observe("status", (uint64_t)st);
    if(st == S::Success)
    {
        sym_check(same_str(r.get_body(), body) && same_str(r.get_uri(), q.get_uri()) && r.get_type() == q.get_type() && r.get_status() == q.get_status(), "what arrives is what was sent");
        sym_check(r.header_exists("x") && same_str(r.header("x"), q.header("x")), "header");
        if(sym_param("TYPE", 0) == 0) sym_check(r.get_exists("g") && same_str(r.get("g"), q.get("g")), "parameter");
        sym_check(rx.faults == (mode == 1), "a read which fails or times out ends the receive");
        if(body.size()) sym_check(rx.rpos == expect.size(), "nothing is taken for a whole message before all of it has arrived");
        sym_reach("received");
    }
    else
    {
        sym_check(mode != 0, "without a failure the message arrives");
        // what has been received in part can't be continued: the caller has to disconnect
        if(rx.rpos) sym_check(st != S::WouldBlock && st != S::Timeout && st != S::NotEnoughData, "a message which was lost half way can't be taken for one which can be received again");
        else sym_check(st == rx.last_fault, "the status of the socket is passed on");
        sym_reach("broken off");
    }
    sym_reach("done");
}
int main()
{
    if(sym_param("TYPE", 0)) run<fr::HttpResponse>(""); else run<fr::HttpRequest>("");
    return 0;
}
