// What status_to_string says right after a failure is what the failing call said.
#include <frnetlib/SSLListener.h>
#include <frnetlib/TcpListener.h>
#include "tls.h"
typedef fr::Socket::Status S;
static void explain(S st, unsigned faults)
{
    sym_observe("status", (uint64_t)st);
    if(st == S::Success) { sym_reach("success"); return; }
    K.said = Kernel::NOTHING; K.said_code = 0;
    std::string text = fr::Socket::status_to_string(st);
    switch(st)
    {
        case S::AddressLookupFailure:
            sym_check(K.said == Kernel::GAI && K.said_code == K.gai && text.find("why") != std::string::npos, "a failed lookup is explained by what getaddrinfo said");
            sym_reach("lookup");
            break;
        case S::SSLError:
            sym_check(K.said == Kernel::TLS && K.said_code == T.last_error && text.find("why") != std::string::npos, "a TLS error is explained by what the TLS library said");
            sym_reach("TLS error");
            break;
        case S::SendError: case S::ReceiveError: case S::BindFailed: case S::ListenFailed: case S::AcceptError:
            sym_check(K.said == Kernel::ERRNO && K.said_code == K.cause && text.find("why") != std::string::npos, "a failed system call is explained by its error");
            sym_reach(st == S::SendError || st == S::ReceiveError ? "transfer" : st == S::AcceptError ? "accept" : "listen");
            break;
        default: sym_reach("other");
    }
}
int main()
{
    kernel_init();
    K.naddr = 1 + sym_choose(sym_param("ADDRS", 2), "addresses");
    bool tls = sym_param("TLS", 0);
    auto ctx = std::make_shared<fr::SSLContext>();
    T.trust = &ctx->cacert; T.cert_host = "h";
    std::unique_ptr<fr::Socket> s; std::unique_ptr<fr::Listener> l;
    if(tls) { s.reset(new fr::SSLSocket(ctx)); l.reset(new fr::SSLListener(ctx, "a", "b")); }
    else { s.reset(new fr::TcpSocket()); l.reset(new fr::TcpListener()); }
    unsigned faults = sym_param("FAULTS", 2);
    char buf[4] = {1, 2, 3, 4}; size_t n = 0;
    errno = 4242;       // left over from something else
    switch(sym_choose(5, "operation"))
    {
        case 0:
            K.faults = faults;
            if(tls && sym_choose(2, "untrusted")) T.cert_trusted = false;
            explain(s->connect("h", "443", std::chrono::seconds(0)), faults);
            break;
        case 1: case 2:
        {
            sym_check(s->connect("h", "443", std::chrono::seconds(0)) == S::Success, "connected");
            bool snd = sym_choose(2, "direction");
            if(sym_choose(2, "non-blocking")) sym_check(s->set_blocking(false) == S::Success, "non-blocking");
            K.faults = faults; K.rx = "abcd"; K.cuts = 1;
            explain(snd ? s->send_raw(buf, 4, n) : s->receive_raw(buf, 4, n), faults);
            break;
        }
        case 3: K.faults = faults; explain(l->listen("443"), faults); break;
        default:
            sym_check(l->listen("443") == S::Success, "listening");
            K.faults = faults; T.stalls = 1;
            explain(l->accept(*s), faults);
    }
    sym_reach("done");
    return 0;
}
