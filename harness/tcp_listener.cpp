// The life of a TcpListener: listening (with any failure of any system call), accepting into fresh and used sockets,
// shutting down and destruction. Nothing leaks, nothing is closed twice, and what it says about itself is true.
#include <frnetlib/TcpListener.h>
#include "kernel.h"
#include "fake_socket.h"
typedef fr::Socket::Status S;
static const fr::Socket::IP ips[] = {fr::Socket::IP::any, fr::Socket::IP::v4, fr::Socket::IP::v6};
static const int fams[] = {AF_UNSPEC, AF_INET, AF_INET6};
int main()
{
    kernel_init(); K.close_fails = true;
    K.faults = sym_param("FAULTS", 2);
    K.naddr = 1 + sym_choose(sym_param("ADDRS", 2), "addresses");
    {
        fr::TcpListener l;
        sym_check(!l.connected() && l.get_socket_descriptor() == -1, "a new listener isn't listening");
        fr::TcpSocket c;
        unsigned ip = sym_choose(3, "ip version");
        l.set_inet_version(ips[ip]);
        int expect = 0;             // descriptors which should be open
        bool up = false, client = false;
        unsigned steps = sym_param("STEPS", 3);
        for(unsigned i = 0; i < steps; i++)
        {
            switch(i == 0 ? 0 : sym_choose(5, "op"))
            {
                case 0:
                {
                    unsigned faults = K.faults, listens = K.listens;
                    S st = l.listen("8080");
                    sym_observe("status", (uint64_t)st);
                    sym_check(K.hint_family == fams[ip] && K.node_null && K.service == "8080" && (K.hint_flags & AI_PASSIVE), "every local address of the right IP version is looked up, with the right port");
                    sym_check(K.ai_live == 0, "the looked up addresses are released");
                    up = st == S::Success;
                    if(up)
                    {
                        KFd *f = K.get(l.get_socket_descriptor());
                        sym_check(l.connected() && f && f->listening && f->bound, "a listener which says that it's listening is");
                        sym_check(f->reuseaddr, "the address can be used again");
                        sym_check(ip == 0 || f->family == fams[ip], "only the chosen IP version is listened to");
                        sym_check(K.listens == listens + 1 && K.backlog > 0, "once");
                        sym_reach("listening");
                    }
                    else
                    {
                        sym_check(!l.connected() && l.get_socket_descriptor() == -1, "a listener which failed to listen isn't listening");
                        sym_check(K.faults < faults, "it only fails if a system call does");
                        sym_check(st == S::AddressLookupFailure || st == S::BindFailed || st == S::ListenFailed, "status");
                        sym_reach("failed");
                    }
                    break;
                }
                case 1:
                {
                    if(!up) break;
                    unsigned faults = K.faults; int was = c.get_socket_descriptor();
                    if(client && sym_choose(2, "used")) sym_check(c.set_blocking(false) == S::Success || K.faults < faults, "set_blocking");
                    faults = K.faults;
                    S st = l.accept(c);
                    if(st == S::Success)
                    {
                        client = true;
                        KFd *f = K.get(c.get_socket_descriptor());
                        sym_check(c.connected() && f && f->connected && f->origin == 100, "the socket is the new connection");
                        sym_check(c.get_remote_address() == K.peer_text(f) || (c.get_remote_address() == "unknown" && K.faults < faults), "its address is the peer's");
                        sym_check(c.get_blocking() == !f->nonblock, "its blocking mode is known");
                        sym_check(f->nodelay || K.faults < faults, "it's set up like any other socket");
                        sym_reach("accepted");
                    }
                    else
                    {
                        sym_check(st == S::AcceptError && K.faults < faults, "it only fails if accept does");
                        sym_check(c.get_socket_descriptor() == was, "a failure leaves the socket alone");
                        sym_reach("accept failed");
                    }
                    break;
                }
                case 2: l.close_socket(); up = false; sym_check(!l.connected() && l.get_socket_descriptor() == -1, "closed"); break;
                case 3: if(up) { l.shutdown(); sym_check(K.get(l.get_socket_descriptor())->shut, "shut down"); } break;
                case 4:
                {
                    // a socket of another kind
                    if(!up) break;
                    FakeSocket other; bool threw = false; int live = K.live();
                    try { l.accept(other); } catch(const std::bad_cast &) { threw = true; }
                    sym_check(threw && K.live() == live, "sockets of another kind are refused, and no connection is lost");
                    sym_reach("bad cast");
                    break;
                }
            }
            expect = (up ? 1 : 0) + (client ? 1 : 0);
            sym_check(K.live() == expect, "one descriptor for each open socket");
            sym_check(K.bad == 0, "no system call on a descriptor which isn't open");
        }
    }
    sym_check(K.live() == 0 && K.bad == 0 && K.opened == K.closes, "destruction closes every descriptor, once");
    sym_reach("done");
    return 0;
}
