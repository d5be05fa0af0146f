// SSLSocket::connect: no connection without a completed handshake with a peer whose certificate is trusted and is the
// host's (unless verification has been switched off), whatever fails on the way; and nothing leaks.
#include <frnetlib/SSLSocket.h>
#include "tls.h"
typedef fr::Socket::Status S;
int main()
{
    kernel_init(); K.close_fails = true;
    K.naddr = 1;
    {
        auto ctx = std::make_shared<fr::SSLContext>();
        T.trust = &ctx->cacert; T.cert_host = "host.example";
        K.faults = sym_param("FAULTS", 2); T.stalls = sym_param("STALLS", 1);
        fr::SSLSocket s(ctx);
        sym_check(!s.connected() && s.get_socket_descriptor() == -1, "a new socket isn't connected");
        unsigned ip = sym_choose(3, "ip version");
        static const fr::Socket::IP ips[] = {fr::Socket::IP::any, fr::Socket::IP::v4, fr::Socket::IP::v6};
        static const int fams[] = {AF_UNSPEC, AF_INET, AF_INET6};
        if(ip) s.set_inet_version(ips[ip]);
        bool verify = true;
        unsigned steps = sym_param("STEPS", 2);
        for(unsigned i = 0; i < steps; i++)
        {
            switch(i == 0 ? 0 : sym_choose(3, "op"))
            {
                case 0:
                {
                    unsigned vf = sym_choose(3, "verify");
                    if(vf) s.verify_certificates(verify = vf == 1);
                    unsigned cert = sym_choose(3, "certificate");
                    T.cert_trusted = cert != 1; T.cert_name = cert != 2;
                    unsigned faults = K.faults, shakes = T.handshakes;
                    K.polls = 0;
                    S st = s.connect("host.example", "443", std::chrono::seconds(i ? 100 : 7));
                    sym_observe("status", (uint64_t)st);
                    sym_check(K.hint_family == fams[ip] && K.node == "host.example" && K.service == "443", "the right host, port and IP version are looked up");
                    if(K.polls) sym_check(K.poll_timeout == (i ? 100000 : 7000), "the timeout is what the caller asked for");
                    sym_check(K.ai_live == 0, "the looked up addresses are released");
                    if(st == S::Success)
                    {
                        sym_check(!verify || cert == 0, "a peer without a trusted certificate for the host isn't connected to");
                        sym_check(T.handshakes > shakes, "the handshake is done");
                        KFd *f = K.get(s.get_socket_descriptor());
                        sym_check(s.connected() && f && f->connected && K.live() == 1, "a connected socket has a connection");
                        sym_check(!f->nonblock && s.get_blocking(), "which is blocking");
                        int shaken = 0; for(auto &c : T.c) shaken += c.live && c.shaken && c.conf && c.bio && ((mbedtls_net_context*)c.bio)->fd == s.get_socket_descriptor();
                        sym_check(shaken == 1 && T.live() == 1, "and a session over it");
                        sym_check(s.get_remote_address() == "host.example:443", "remote address");
                        sym_reach(verify ? "verified" : "unverified");
                    }
                    else
                    {
                        sym_check(K.faults < faults || (verify && cert), "it only fails if something does");
                        sym_check(!s.connected() && s.get_socket_descriptor() == -1 && K.live() == 0, "a failed connection leaves the socket disconnected");
                        sym_reach(verify && cert ? "refused" : "failed");
                    }
                    break;
                }
                case 1: s.disconnect(); sym_check(!s.connected() && s.get_socket_descriptor() == -1 && K.live() == 0, "disconnected"); sym_reach("disconnected"); break;
                case 2: if(s.connected()) { unsigned faults = K.faults; bool b = sym_choose(2, "blocking"); S st = s.set_blocking(b); sym_check(st == S::Success ? s.get_blocking() == b : K.faults < faults, "set_blocking"); sym_check(K.get(s.get_socket_descriptor())->nonblock == !s.get_blocking(), "the blocking mode is known"); } break;
            }
            sym_check(K.bad == 0 && T.bad == 0, "nothing is used which has been closed or freed");
        }
        K.faults = 0;
    }
    sym_check(K.live() == 0 && K.bad == 0 && K.opened == K.closes, "destruction closes every descriptor, once");
    sym_check(T.live() == 0 && T.confs() == 0 && T.bad == 0 && T.crts == 0 && T.drbgs == 0 && T.entropies == 0, "and frees every TLS context, once");
    sym_reach("done");
    return 0;
}
