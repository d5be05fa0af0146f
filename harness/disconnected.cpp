// Sockets and listeners which aren't connected: whatever they are asked to do fails, and touches nobody else's descriptor.
#include <frnetlib/SSLListener.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/Packet.h>
#include <frnetlib/SocketSelector.h>
#include "tls.h"
typedef fr::Socket::Status S;
static bool same_fd(const KFd &a, const KFd &b)
{
    return a.open == b.open && a.nonblock == b.nonblock && a.connected == b.connected && a.listening == b.listening && a.shut == b.shut && a.nodelay == b.nodelay
           && a.rcvset == b.rcvset && a.sndset == b.sndset && a.rcvto.tv_sec == b.rcvto.tv_sec && a.rcvto.tv_usec == b.rcvto.tv_usec && a.sndto.tv_sec == b.sndto.tv_sec && a.sndto.tv_usec == b.sndto.tv_usec;
}
int main()
{
    kernel_init(); K.close_fails = true;
    K.naddr = 1; K.none_ok = true; K.rx = "somebody else's data";
    auto ctx = std::make_shared<fr::SSLContext>();
    T.trust = &ctx->cacert; T.cert_host = "h";
    bool tls = sym_param("TLS", 0);
    {
        std::shared_ptr<fr::Socket> s; std::unique_ptr<fr::Listener> l;
        if(tls) { s.reset(new fr::SSLSocket(ctx)); l.reset(new fr::SSLListener(ctx, "a", "b")); }
        else { s.reset(new fr::TcpSocket()); l.reset(new fr::TcpListener()); }
        // how it came to be disconnected
        unsigned how = sym_choose(4, "history");
        if(how == 1) { K.faults = 2; S st = s->connect("h", "443", std::chrono::seconds(1)); K.faults = 0; if(st == S::Success) { sym_reach("connected"); return 0; } sym_reach("failed"); }
        if(how > 1)
        {
            sym_check(s->connect("h", "443", std::chrono::seconds(1)) == S::Success, "connected");
            if(sym_choose(2, "non-blocking")) sym_check(s->set_blocking(false) == S::Success, "non-blocking");
            s->disconnect(); if(how == 2) s->disconnect();
            sym_reach("closed");
        }
        if(sym_choose(2, "listened")) { sym_check(l->listen("443") == S::Success, "listening"); l->close_socket(); }
        sym_check(!s->connected() && s->get_socket_descriptor() == -1 && !l->connected() && l->get_socket_descriptor() == -1, "disconnected");
        sym_check(K.live() == 0, "no descriptor is kept");
        // somebody else gets the descriptors
        for(int i = 0; i < 3; i++) { int d = K.alloc(AF_INET); K.get(d)->connected = true; }
        KFd before[3]; for(int i = 0; i < 3; i++) before[i] = K.fd[i];
        unsigned closes = K.closes;
        char buf[4] = {1, 2, 3, 4}; size_t n = 0;
        K.cuts = 1;
        unsigned steps = sym_param("STEPS", 2);
        for(unsigned i = 0; i < steps; i++)
            switch(sym_choose(13, "operation"))
            {
                case 0: sym_check(s->send_raw(buf, 4, n) != S::Success && n == 0, "nothing is sent"); break;
                case 1: n = 99; sym_check(s->receive_raw(buf, 4, n) != S::Success && n == 0, "nothing is received"); n = 0; break;
                case 2: sym_check(s->receive_all(buf, 4) != S::Success, "nothing is received"); break;
                case 3: { fr::Packet p; p << (uint32_t)7; sym_check(s->send(p) == S::Disconnected, "it says that it's disconnected"); break; }
                case 4: { fr::Packet p; sym_check(s->receive(p) != S::Success, "no packet is received"); break; }
                case 5: s->shutdown(); break;
                case 6: s->disconnect(); break;
                case 7: s->set_inet_version(sym_choose(2, "version") ? fr::Socket::IP::v4 : fr::Socket::IP::any); break;
                case 8: { uint32_t t = sym_val<uint32_t>("timeout"); s->set_receive_timeout(t); s->set_send_timeout(t); sym_check(s->get_receive_timeout() == t && s->get_send_timeout() == t, "it's remembered"); break; }
                case 9: s->set_blocking(sym_choose(2, "blocking")); break;
                case 10: sym_check(l->accept(*s) != S::Success, "nobody is accepted"); break;
                case 11: l->shutdown(); break;
                case 12: l->close_socket(); break;
            }
        sym_check(!s->connected() && s->get_socket_descriptor() == -1 && !l->connected(), "it's still disconnected");
        bool same = true;
        for(int i = 0; i < 3; i++) same &= same_fd(before[i], K.fd[i]);
        sym_check(same && K.closes == closes && K.live() == 3, "nobody else's descriptor is touched");
        sym_check(K.tx.empty() && K.rpos == 0, "nobody else's data is touched");
        K.cuts = 0;
        sym_check(s->connect("h", "443", std::chrono::seconds(1)) == S::Success && s->connected(), "it can still be connected");
        size_t sent = 0;
        sym_check(s->send_raw(buf, 4, sent) == S::Success && K.tx.size() == 4, "and used");
    }
    sym_check(K.live() == 3 && K.bad == 0 && T.bad == 0, "everything is released once");
    sym_reach("done");
    return 0;
}
