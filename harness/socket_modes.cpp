// Blocking mode and timeouts of TcpSocket and SSLSocket: what the socket says is what the kernel has been told, after
// any history of changing them, connecting, accepting and taking over descriptors.
#include <frnetlib/SSLListener.h>
#include <frnetlib/TcpListener.h>
#include "tls.h"
typedef fr::Socket::Status S;
static bool is_ms(const timeval &tv, uint32_t ms) { return ((uint64_t)tv.tv_sec == ms / 1000) & ((uint64_t)tv.tv_usec == ms % 1000 * 1000); }
int main()
{
    kernel_init(); K.close_fails = true;
    K.naddr = 1;
    auto ctx = std::make_shared<fr::SSLContext>();
    T.trust = &ctx->cacert; T.cert_host = "h";
    bool tls = sym_param("TLS", 0);
    fr::TcpSocket tcp; fr::SSLSocket ssl(ctx);
    fr::TcpListener tl;
    std::unique_ptr<fr::SSLListener> sl;
    if(tls) { sl.reset(new fr::SSLListener(ctx, "a", "b")); sym_check(sl->listen("1") == S::Success, "listening"); }
    else sym_check(tl.listen("1") == S::Success, "listening");
    fr::Socket &s = tls ? (fr::Socket&)ssl : (fr::Socket&)tcp;
    K.faults = sym_param("FAULTS", 1);
    unsigned allf = K.faults;
    bool modes = sym_param("MODES", 1);
    uint32_t rt = 0, wt = 0; bool nb = false;
    unsigned steps = sym_param("STEPS", 3);
    for(unsigned i = 0; i < steps; i++)
    {
        unsigned faults = K.faults;
        if(!modes) K.faults = 0;
        switch(sym_choose(modes ? 4 : 5, "op"))
        {
            case 0: { S st = s.connect("h", "443", std::chrono::seconds(0)); if(st == S::Success) nb = false; else sym_check(!s.connected(), "not connected"); break; }
            case 1: { S st = tls ? sl->accept(s) : tl.accept(s); if(st == S::Success) nb = false; else sym_check(K.faults < faults, "accept only fails if a call does"); break; }
            case 2:
            {
                if(modes)
                {
                    bool b = sym_choose(2, "blocking");
                    if(!s.connected())
                    {
                        // there is nothing to set, or it's remembered
                        bool was = s.get_blocking(); unsigned bad = K.bad;
                        S st = s.set_blocking(b);
                        if(s.get_socket_descriptor() == -1) K.bad = bad;        // calls on no descriptor at all are harmless
                        sym_check(s.get_blocking() == (st == S::Success ? b : was), "the mode only changes if it has been set");
                        sym_reach("disconnected");
                        break;
                    }
                    S st = s.set_blocking(b);
                    sym_check(st == S::Success || K.faults < faults, "changing the mode only fails if the system call does");
                    if(st == S::Success) { nb = !b; sym_reach(b ? "blocking" : "non-blocking"); }
                    sym_check(s.get_blocking() == !nb, "the mode is the one which was set last");
                }
                else { rt = sym_val<uint32_t>("receive timeout"); s.set_receive_timeout(rt); sym_reach("receive timeout"); }
                break;
            }
            case 3:
            {
                if(!modes) { wt = sym_val<uint32_t>("send timeout"); s.set_send_timeout(wt); sym_reach("send timeout"); break; }
                // nothing to receive, no room to send
                if(!s.connected()) break;
                char b[4] = {1, 2, 3, 4}; size_t n = 0; S st;
                bool snd = sym_choose(2, "send"), by_errno = !tls || !nb ? true : false;
                if(!tls)
                {
                    K.would_block = true;
                    st = snd ? s.send_raw(b, 4, n) : s.receive_raw(b, 4, n);
                    K.would_block = false;
                }
                else
                {
                    T.would_block = by_errno ? 2 : 1;
                    st = snd ? s.send_raw(b, 4, n) : s.receive_raw(b, 4, n);
                    T.would_block = 0;
                }
                sym_check(st == (nb ? S::WouldBlock : S::Timeout), "a blocking socket times out, a non-blocking socket would block");
                sym_check(n == 0, "and nothing is transferred");
                sym_reach(nb ? "would block" : "timeout");
                break;
            }
            case 4: s.disconnect(); break;
        }
        if(!modes) { sym_check(s.get_receive_timeout() == rt && s.get_send_timeout() == wt, "the timeouts are the ones which were set last"); }
        if(s.connected())
        {
            KFd *f = K.get(s.get_socket_descriptor());
            sym_check(f != nullptr, "a connected socket has an open descriptor");
            if(modes) sym_check(f->nonblock == nb && s.get_blocking() == !nb, "the descriptor's mode is the socket's");
            else
            {
                sym_check(f->rcvset ? is_ms(f->rcvto, rt) : rt == 0, "the receive timeout is the descriptor's");
                sym_check(f->sndset ? is_ms(f->sndto, wt) : wt == 0, "the send timeout is the descriptor's");
                sym_reach("connected");
            }
        }
    }
    sym_check(K.bad == 0 && T.bad == 0, "nothing is used which has been closed or freed");
    (void)allf;
    sym_reach("done");
    return 0;
}
