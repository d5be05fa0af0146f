// A SocketSelector with many sockets, all of which are ready.
#define KERNEL_MAX 300
#include <frnetlib/SocketSelector.h>
#include <frnetlib/TcpSocket.h>
#include "kernel.h"
int main()
{
    kernel_init();
    K.all_ready = true;
    static const unsigned counts[] = {99, 100, 101, 128, 250};
    unsigned n = counts[sym_choose(5, "sockets")];
    int cookies[256];
    std::vector<std::shared_ptr<fr::TcpSocket>> s;
    std::vector<bool> seen(n);
    {
        fr::SocketSelector sel;
        for(unsigned i = 0; i < n; i++)
        {
            s.push_back(std::make_shared<fr::TcpSocket>());
            int d = K.alloc(AF_INET); K.get(d)->connected = true; s[i]->set_descriptor(&d);
            sel.add(s[i], &cookies[i]);
        }
        unsigned all = 0;
        for(unsigned k = 0; k < n && all < n; k++)
        {
            auto r = sel.wait(std::chrono::milliseconds(250));
            sym_check(!r.empty() && r.size() == (size_t)K.nready, "the sockets which the kernel has reported are returned");
            sym_observe("ready", r.size());
            for(auto &e : r)
            {
                unsigned i = (unsigned)((int*)e.second - cookies);
                sym_check(i < n && e.first.get() == static_cast<fr::SocketDescriptor*>(s[i].get()) && !seen[i], "each socket, with what it was added with, once");
                seen[i] = true; all++;
                // what has been dealt with is removed: the others get their turn
                sym_check(sel.remove(s[i]) == e.second, "removed");
            }
        }
        sym_check(all == n, "no socket is forgotten");
        sym_check(sel.wait(std::chrono::milliseconds(250)).empty(), "nothing is left");
        sym_reach("all");
    }
    s.clear();
    sym_check(K.live() == 0 && K.bad == 0 && K.opened == K.closes, "nothing leaks");
    sym_reach("done");
    return 0;
}
