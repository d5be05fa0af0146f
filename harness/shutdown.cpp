// shutdown() of sockets and listeners: nothing waits any more, and nothing is transferred or accepted, but the descriptor
// stays where it is until the socket is disconnected. Other sockets don't notice.
#include <frnetlib/SSLListener.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/Packet.h>
#include "tls.h"
typedef fr::Socket::Status S;
int main()
{
    kernel_init();
    K.naddr = 1; K.shut_ends = true; K.none_ok = true; K.close_fails = true;
    bool tls = sym_param("TLS", 0);
    auto ctx = std::make_shared<fr::SSLContext>();
    T.trust = &ctx->cacert; T.cert_host = "h";
    {
        auto make = [&] { std::unique_ptr<fr::Socket> p; if(tls) p.reset(new fr::SSLSocket(ctx)); else p.reset(new fr::TcpSocket()); return p; };
        std::unique_ptr<fr::Listener> l;
        if(tls) l.reset(new fr::SSLListener(ctx, "a", "b")); else l.reset(new fr::TcpListener());
        std::unique_ptr<fr::Socket> s = make(), other = make(), client = make();
        sym_check(other->connect("h", "1", std::chrono::seconds(1)) == S::Success, "connected");
        sym_check(l->listen("2") == S::Success, "listening");
        if(sym_choose(2, "accepted")) sym_check(l->accept(*s) == S::Success, "accepted"); else sym_check(s->connect("h", "1", std::chrono::seconds(1)) == S::Success, "connected");
        bool blocking = !sym_choose(2, "non-blocking");
        if(!blocking) sym_check(s->set_blocking(false) == S::Success, "non-blocking");
        K.rx = sym_string(3, "data");
        int d = s->get_socket_descriptor(), ld = l->get_socket_descriptor();
        bool shut = false, lshut = false; int accepted = 0;
        unsigned steps = sym_param("STEPS", 4);
        for(unsigned i = 0; i < steps; i++)
        {
            unsigned op = sym_choose(9, "operation");
            if(d == -1 && op < 2) sym_kill();       // see C43
            size_t n = 0, tx = K.tx.size(), pos = K.rpos, left = K.rx.size() - K.rpos;
            char buf[2] = {1, 2};
            switch(op)
            {
                case 0:
                {
                    S st = s->send_raw(buf, 2, n);
                    if(!shut) sym_check(st == S::Success && n == 2 && K.tx.size() == tx + 2, "data is sent");
                    else { sym_check(st != S::Success && st != S::WouldBlock && st != S::Timeout && n == 0 && K.tx.size() == tx, "nothing is sent over a socket which was shut down"); sym_reach("not sent"); }
                    break;
                }
                case 1:
                {
                    if(!shut && !left) sym_kill();       // would wait
                    n = 77;
                    S st = s->receive_raw(buf, 2, n);
                    if(left) { sym_check(st == S::Success && n == (left < 2 ? left : 2) && same_bytes(buf, K.rx.data() + pos, n), "what has arrived is received"); sym_reach("received"); }
                    else { sym_check(st == S::Disconnected && n == 0, "a socket which was shut down doesn't wait for data"); sym_reach("no wait"); }
                    break;
                }
                case 2: s->shutdown(); if(d != -1) shut = true; sym_reach("shut down"); break;
                case 3: s->disconnect(); d = -1; break;
                case 4:
                    sym_check(s->connect("h", "1", std::chrono::seconds(1)) == S::Success, "it can be connected again");
                    d = s->get_socket_descriptor(); shut = false; blocking = true; sym_reach("again");
                    break;
                case 5: l->shutdown(); lshut = true; break;
                case 6:
                {
                    int before = K.live();
                    S st = l->accept(*client);
                    if(lshut) { sym_check(st != S::Success && K.live() == before, "nobody is accepted by a listener which was shut down"); sym_reach("not accepted"); }
                    else { sym_check(st == S::Success && client->connected(), "a connection is accepted"); accepted = 1; sym_reach("accepted"); }
                    break;
                }
                case 7: sym_check(l->listen("2") == S::Success, "it can listen again"); ld = l->get_socket_descriptor(); lshut = false; break;
                case 8: { fr::Packet p; p << (uint8_t)7; S st = s->send(p); if(shut || d == -1) sym_check(st != S::Success && K.tx.size() == tx, "no packet is sent"); else sym_check(st == S::Success, "a packet is sent"); break; }
            }
            sym_check(s->get_socket_descriptor() == d && s->connected() == (d != -1), "the socket keeps its descriptor");
            if(d != -1)
            {
                KFd *f = K.get(d);
                sym_check(f && f->shut_rd == shut && f->shut_wr == shut && !f->stuck, "and it's shut down in both directions, if it was asked for");
                sym_check(f && f->nonblock == !blocking && s->get_blocking() == blocking, "in the same mode");
            }
            else { shut = false; blocking = true; }
            KFd *lf = K.get(ld);
            sym_check(l->get_socket_descriptor() == ld && l->connected() && lf && lf->listening && lf->shut_rd == lshut, "the listener keeps its descriptor");
            KFd *of = K.get(other->get_socket_descriptor());
            sym_check(of && !of->shut && other->connected(), "other sockets aren't affected");
            sym_check(K.live() == 2 + (d != -1) + accepted, "no descriptor is lost or kept");
        }
    }
    sym_check(K.live() == 0 && K.bad == 0 && T.bad == 0, "everything is released once");
    sym_reach("done");
    return 0;
}
