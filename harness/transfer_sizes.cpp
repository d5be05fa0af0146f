// send_raw and receive_raw with any size (up to 2^40 bytes), every call transferring any number of bytes: nothing is stored
// here, only where the bytes come from or go to is looked at.
#include <frnetlib/SSLListener.h>
#include "tls.h"
typedef fr::Socket::Status S;
static char buf[16];
int main()
{
    kernel_init();
    K.naddr = 1;
    auto ctx = std::make_shared<fr::SSLContext>();
    T.trust = &ctx->cacert; T.cert_host = "h";
    std::unique_ptr<fr::Socket> s;
    if(sym_param("TLS", 0)) s.reset(new fr::SSLSocket(ctx)); else s.reset(new fr::TcpSocket());
    sym_check(s->connect("h", "443", std::chrono::seconds(1)) == S::Success, "connected");
    bool blocking = !sym_choose(2, "non-blocking");
    if(!blocking) s->set_blocking(false);
    uint64_t n = sym_val<uint64_t>("size");
    sym_assume((n >= 1) & (n <= 1ull << 40));
    K.place = buf; K.size = n; K.max_moves = sym_param("MOVES", 2);
    K.faults = sym_param("FAULTS", 1); T.stalls = K.eintr = sym_param("STALLS", 1);
    if(sym_choose(2, "direction") == 0)
    {
        size_t sent = 0;
        S st = s->send_raw(buf, n, sent);
        sym_observe("status", (uint64_t)st); sym_observe("sent", sent);
        sym_check(sent == K.moved, "exactly what has been transferred is counted");
        if(st == S::Success) { sym_check(sent == n, "success means everything"); sym_reach("sent"); }
        else sym_reach("stopped");
    }
    else
    {
        size_t received = 5;
        S st = s->receive_raw(buf, n, received);
        sym_observe("status", (uint64_t)st); sym_observe("received", received);
        sym_check(received == K.moved && (st == S::Success) == (received > 0), "exactly what has been transferred is counted");
        if(st == S::Success) sym_reach("received");
    }
    sym_reach("done");
    return 0;
}
