// Any history of a SocketSelector: adding, removing, waiting, disconnecting, reconnecting.
#include <frnetlib/SocketSelector.h>
#include <frnetlib/TcpSocket.h>
#include "kernel.h"
typedef fr::Socket::Status S;
int main()
{
    kernel_init(); K.close_fails = true;
    unsigned N = sym_param("SOCKETS", 2), steps = sym_param("STEPS", 4);
    K.faults = sym_param("FAULTS", 1); K.any_events = true;
    int cookies[4]; static const unsigned MAXS = 4;
    std::shared_ptr<fr::TcpSocket> s[MAXS];
    {
        std::unique_ptr<fr::SocketSelector> sel;
        try { sel.reset(new fr::SocketSelector()); }
        catch(const std::runtime_error &) { sym_check(K.faults < sym_param("FAULTS", 1) && K.live() == 0, "a selector can be created"); sym_reach("no selector"); return 0; }
        bool added[MAXS] = {}, gone[MAXS] = {};     // gone: has been disconnected since it was added
        void *op[MAXS] = {};
        for(unsigned i = 0; i < N; i++) { s[i] = std::make_shared<fr::TcpSocket>(); int d = K.alloc(AF_INET); K.get(d)->connected = true; s[i]->set_descriptor(&d); }
        // a history after which a socket which is connected has the descriptor of one which has been disconnected
        static const unsigned script[][2] = {{0, 0}, {3, 0}, {3, 1}, {3, 1}, {0, 1}};
        unsigned pre = sym_param("REUSE", 0) ? 5 : 0;
        if(pre) K.faults = 0;
        steps += pre;
        for(unsigned k = 0; k < steps; k++)
        {
            unsigned w, i;
            if(k < pre) { w = script[k][0]; i = script[k][1]; }
            else { w = sym_choose(4, "op"); i = N > 1 && w != 1 ? sym_choose(N, "which") : 0; }
            unsigned faults = K.faults;
            switch(w)
            {
                case 0:
                {
                    void *o = &cookies[sym_choose(2, "opaque")];
                    bool threw = false;
                    try { sel->add(s[i], o); } catch(const std::exception &) { threw = true; }
                    if(added[i] || !s[i]->connected()) sym_check(threw, "sockets which are disconnected, or have already been added, are refused");
                    else if(threw) { sym_check(K.faults < faults, "adding only fails if the system call does"); sym_reach("add failed"); }
                    else { added[i] = true; op[i] = o; gone[i] = false; sym_reach("added"); }
                    break;
                }
                case 1:
                {
                    std::vector<std::pair<std::shared_ptr<fr::SocketDescriptor>, void*>> r;
                    bool threw = false;
                    int32_t t = sym_val<int32_t>("timeout");
                    try { r = sel->wait(std::chrono::milliseconds(t)); } catch(const std::runtime_error &) { threw = true; }
                    sym_check((K.wait_timeout == t) | ((t < 0) & (K.wait_timeout < 0)), "the timeout is passed on");
                    if(threw || K.faults < faults) { sym_check(K.faults < faults && r.empty(), "waiting only fails if the system call does"); sym_reach("wait failed"); break; }
                    sym_check(r.size() == (size_t)K.nready, "every socket which is ready is returned, and nothing else");
                    unsigned seen = 0;
                    for(size_t a = 0; a < r.size(); a++)
                    {
                        bool found = false;
                        for(unsigned j = 0; j < N; j++) if(r[a].first.get() == static_cast<fr::SocketDescriptor*>(s[j].get()))
                        {
                            sym_check(added[j] && !gone[j], "only sockets which have been added are returned");
                            sym_check(r[a].second == op[j], "together with what they were added with");
                            for(int q = 0; q < K.nready; q++) found |= s[j]->get_socket_descriptor() == K.ready[q];
                            sym_check(!(seen >> j & 1), "and only once"); seen |= 1u << j;
                        }
                        sym_check(found, "a socket which is ready");
                        sym_reach("ready");
                    }
                    break;
                }
                case 2:
                {
                    void *o = sel->remove(s[i]);
                    sym_check(o == (added[i] ? op[i] : nullptr), "removing returns what the socket was added with");
                    if(added[i]) sym_reach(gone[i] ? "removed disconnected" : "removed");
                    added[i] = false; gone[i] = false;
                    break;
                }
                case 3:
                {
                    if(s[i]->connected()) { s[i]->disconnect(); gone[i] = true; }
                    else { int d = K.alloc(AF_INET); K.get(d)->connected = true; s[i]->set_descriptor(&d); sym_reach("reconnected"); }
                    break;
                }
            }
            unsigned regs = 0, want = 0;
            for(int j = 0; j < Kernel::MAX; j++) regs += K.reg[j].on;
            for(unsigned j = 0; j < N; j++)
            {
                want += added[j] && !gone[j];
                sym_check(s[j].use_count() == (added[j] ? 2 : 1), "a socket is kept while it's added, and released when it's removed");
                if(added[j] && !gone[j]) { Kernel::Reg &r = K.reg[s[j]->get_socket_descriptor() - K.base]; sym_check(r.on && (r.events & EPOLLIN), "the kernel watches what has been added"); }
            }
            sym_check(regs == want, "and nothing else");
            sym_check(K.bad == 0, "no system call on a descriptor which isn't open");
        }
    }
    sym_check(K.epfd == -1, "the selector's descriptor is closed");
    for(unsigned i = 0; i < N; i++) sym_check(s[i].use_count() == 1, "destroying the selector releases its sockets");
    for(unsigned i = 0; i < N; i++) s[i].reset();
    sym_check(K.live() == 0 && K.opened == K.closes, "nothing leaks");
    sym_reach("done");
    return 0;
}
