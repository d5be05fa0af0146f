// The life of a TcpSocket's descriptors: connecting (with any failure of any system call), reconnecting, taking
// over descriptors, disconnecting and destruction. Nothing leaks, nothing is closed twice.
#include <frnetlib/TcpSocket.h>
#include "kernel.h"
typedef fr::Socket::Status S;
static void connected_ok(fr::TcpSocket &s)
{
    int d = s.get_socket_descriptor();
    KFd *f = K.get(d);
    sym_check(s.connected() && f != nullptr, "a connected socket has an open descriptor");
    sym_check(f->connected, "which really is connected");
    sym_check(!f->nonblock && s.get_blocking(), "a new connection is blocking");
}
int main()
{
    kernel_init(); K.close_fails = true;
    K.faults = sym_param("FAULTS", 2);
    K.naddr = 1 + sym_choose(sym_param("ADDRS", 2), "addresses");
    {
        fr::TcpSocket s;
        unsigned steps = sym_param("STEPS", 2);
        static const fr::Socket::IP ips[] = {fr::Socket::IP::any, fr::Socket::IP::v4, fr::Socket::IP::v6};
        static const int fams[] = {AF_UNSPEC, AF_INET, AF_INET6};
        unsigned ip = sym_choose(3, "ip version");
        s.set_inet_version(ips[ip]);
        for(unsigned i = 0; i < steps; i++)
        {
            switch(sym_choose(i == 0 ? 2 : 4, "op"))
            {
                case 0:
                {
                    int64_t t = sym_val<int64_t>("timeout"); sym_assume((t >= -5) & (t < 4000000));
                    K.polls = 0; unsigned frees = K.ai_frees;
                    unsigned faults = K.faults;
                    const std::string host = i % 2 ? "second.example" : "host.example", port = i % 2 ? "81" : "8080";
                    S st = s.connect(host, port, std::chrono::seconds(t));
                    sym_observe("status", (uint64_t)st);
                    sym_check(K.hint_family == fams[ip] && K.node == host && K.service == port, "the right host, port and IP version are looked up");
                    if(K.polls)
                    {
                        if(t > 2147483) sym_check((K.poll_timeout >= 2147483000) | (K.poll_timeout == -1), "a long timeout is as long as it can be");
                        else sym_check(K.poll_timeout == (int)(t <= 0 ? 20 : t) * 1000, "the timeout is what the caller asked for, or 20 seconds");
                    }
                    sym_check(K.blocking_connects == 0, "connecting can time out");
                    sym_check(K.ai_live == 0, "the looked up addresses are released");
                    if(st == S::Success)
                    {
                        connected_ok(s);
                        sym_check(s.get_remote_address() == host + ":" + port, "remote address");
                        sym_check(K.live() == 1, "one descriptor per connection");
                        sym_reach("connected");
                    }
                    else
                    {
                        sym_check(!s.connected() && s.get_socket_descriptor() == -1, "a failed connection leaves the socket disconnected");
                        sym_check(K.live() == 0, "and no descriptor open");
                        sym_check(K.faults < faults, "it only fails if a system call does");
                        sym_check(st == (K.ai_frees == frees ? S::AddressLookupFailure : S::NoRouteToHost) || (st == S::Error && K.ai_frees > frees), "status");
                        sym_reach("failed");
                    }
                    break;
                }
                case 1:
                {
                    int d = K.alloc(AF_INET); K.get(d)->connected = true;
                    s.set_descriptor(&d);
                    sym_check(s.get_socket_descriptor() == d && s.connected(), "a descriptor is taken over");
                    connected_ok(s);
                    sym_check(K.live() == 1, "and the previous one is closed");
                    break;
                }
                case 2: s.disconnect(); sym_check(!s.connected() && s.get_socket_descriptor() == -1 && K.live() == 0, "disconnecting closes the descriptor"); sym_reach("disconnected"); break;
                case 3: if(s.connected()) { sym_check(s.set_blocking(false) == S::Success || K.faults < sym_param("FAULTS", 2), "set_blocking"); sym_check(K.get(s.get_socket_descriptor())->nonblock == !s.get_blocking(), "the blocking mode is known"); } break;
            }
            sym_check(K.bad == 0, "no system call on a descriptor which isn't open");
        }
    }
    sym_check(K.live() == 0 && K.bad == 0 && K.opened == K.closes, "destroying the socket closes its descriptor, once");
    sym_reach("done");
    return 0;
}
