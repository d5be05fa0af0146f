// SSLListener: listening, accepting into fresh and used sockets, with any failure of any call. Every descriptor and TLS
// context has exactly one owner, whatever happens.
#include <frnetlib/SSLListener.h>
#include "tls.h"
#include "fake_socket.h"
typedef fr::Socket::Status S;
static const fr::Socket::IP ips[] = {fr::Socket::IP::any, fr::Socket::IP::v4, fr::Socket::IP::v6};
static const int fams[] = {AF_UNSPEC, AF_INET, AF_INET6};
int main()
{
    kernel_init(); K.close_fails = true;
    K.naddr = 1;
    {
        auto ctx = std::make_shared<fr::SSLContext>();
        std::unique_ptr<fr::SSLListener> l;
        K.faults = sym_param("BROKEN", 1);
        unsigned broken = K.faults;
        try { l.reset(new fr::SSLListener(ctx, "cert.pem", "key.pem")); }
        catch(const std::runtime_error &)
        {
            sym_check(K.faults < broken, "a listener can be made unless a call fails");
            sym_check(T.crts == 1 && T.pks == 0 && T.confs() == 0 && T.bad == 0 && K.live() == 0, "a listener which can't be made keeps nothing");
            sym_reach("no listener");
            return 0;
        }
        sym_check(K.faults == broken, "a listener without a certificate and key isn't made");
        sym_check(T.crt_path == "cert.pem" && T.key_path == "key.pem", "the certificate and key are the given ones");
        {
            fr::SSLSocket c(ctx);
            K.faults = sym_param("FAULTS", 2); T.stalls = sym_param("STALLS", 1);
            unsigned ip = sym_choose(3, "ip version");
            l->set_inet_version(ips[ip]);
            bool up = false, client = false;
            unsigned steps = sym_param("STEPS", 3);
            sym_check(!l->connected() && l->get_socket_descriptor() == -1, "a new listener isn't listening");
            for(unsigned i = 0; i < steps; i++)
            {
                switch(i == 0 ? 0 : sym_choose(6, "op"))
                {
                    case 0:
                    {
                        unsigned faults = K.faults;
                        S st = l->listen("8443");
                        sym_observe("listen", (uint64_t)st);
                        sym_check(K.hint_family == fams[ip] && K.node_null && K.service == "8443", "the right port and IP version are looked up");
                        up = st == S::Success;
                        if(up) { KFd *f = K.get(l->get_socket_descriptor()); sym_check(l->connected() && f && f->listening, "a listener which says that it's listening is"); sym_reach("listening"); }
                        else { sym_check(K.faults < faults, "it only fails if a call does"); sym_check(!l->connected() && l->get_socket_descriptor() == -1, "a listener which failed to listen isn't listening"); sym_reach("failed"); }
                        break;
                    }
                    case 1:
                    {
                        if(!up) break;
                        int was = c.get_socket_descriptor(); unsigned faults = K.faults;
                        S st = l->accept(c);
                        sym_observe("accept", (uint64_t)st);
                        if(st == S::Success)
                        {
                            client = true;
                            KFd *f = K.get(c.get_socket_descriptor());
                            sym_check(c.connected() && f && f->origin == 100, "the socket is the new connection");
                            int shaken = 0; for(auto &t : T.c) shaken += t.live && t.shaken && ((mbedtls_net_context*)t.bio)->fd == c.get_socket_descriptor();
                            sym_check(shaken == 1, "with a session over it");
                            sym_check(c.get_remote_address() == K.peer_text(f) || (c.get_remote_address() == "unknown" && K.faults < faults), "its address is the peer's");
                            sym_check(c.get_blocking() == !f->nonblock, "its blocking mode is known");
                            K.rx = "hello"; K.rpos = 0; char b[8]; size_t n; size_t st2 = T.stalls; T.stalls = 0; unsigned ft = K.faults; K.faults = 0;
                            sym_check(c.receive_raw(b, 8, n) == S::Success && n == 5 && same_bytes(b, "hello", 5), "and data can be received");
                            T.stalls = st2; K.faults = ft;
                            sym_reach("accepted");
                        }
                        else
                        {
                            sym_check(K.faults < faults && (st == S::AcceptError || st == S::SSLError || st == S::Error), "it only fails if a call does");
                            sym_check(c.get_socket_descriptor() == was, "a failure leaves the socket alone");
                            sym_reach("accept failed");
                        }
                        break;
                    }
                    case 2: l->close_socket(); up = false; sym_check(!l->connected() && l->get_socket_descriptor() == -1, "closed"); break;
                    case 3: if(up) { l->shutdown(); sym_check(K.get(l->get_socket_descriptor())->shut, "shut down"); } break;
                    case 4:
                    {
                        if(!up) break;
                        FakeSocket other; bool threw = false; int live = K.live(), t = T.live();
                        try { l->accept(other); } catch(const std::bad_cast &) { threw = true; }
                        sym_check(threw && K.live() == live && T.live() == t, "sockets of another kind are refused, and no connection is lost");
                        sym_reach("bad cast");
                        break;
                    }
                    case 5: c.disconnect(); client = false; sym_check(!c.connected(), "disconnected"); break;
                }
                sym_check(K.live() == (up ? 1 : 0) + (client ? 1 : 0), "one descriptor for each open socket");
                sym_check(T.live() == (client ? 1 : 0), "one session for each connection");
                sym_check(K.bad == 0 && T.bad == 0, "nothing is used which has been closed or freed");
            }
        }
        l.reset();
    }
    sym_check(K.live() == 0 && K.bad == 0 && K.opened == K.closes, "destruction closes every descriptor, once");
    sym_check(T.live() == 0 && T.confs() == 0 && T.bad == 0 && T.crts == 0 && T.pks == 0 && T.drbgs == 0 && T.entropies == 0, "and frees every TLS context, once");
    sym_reach("done");
    return 0;
}
