// Socket::receive_all gives the caller exactly the bytes that arrived, in order, whatever the socket does.
#include <frnetlib/Socket.h>
#include "fake_socket.h"
typedef fr::Socket::Status S;
int main()
{
    size_t n, have;
    if(unsigned big = sym_param("BIG", 0)) { n = big - 1 + sym_choose(3, "wanted"); have = sym_choose(2, "there") ? big + 1 : big - 2; }
    else { n = sym_choose(sym_param("N", 6) + 1, "wanted"); have = sym_choose(sym_param("N", 6) + 3, "there"); }
    FakeSocket s; s.in = sym_string(have, "data");
    s.cuts = sym_param("CUTS", 3); s.stalls = sym_param("STALLS", 2); s.faults = sym_param("FAULTS", 1); s.timeouts = true;
    unsigned stalls = s.stalls;
    static char buf[70032]; size_t used = n + 32; memset(buf, 0x5a, used);
    S st = s.receive_all(buf + 4, n);
    sym_observe("status", (uint64_t)st); sym_observe("consumed", s.rpos);
    if(n == 0) { sym_check(st == S::Success && s.rpos == 0, "nothing to do"); }
    else if(st == S::Success)
    {
        sym_check(s.rpos == n, "success means all of it, and no more");
        sym_check(s.last_fault == S::Success, "a read which fails or times out ends the call");
        sym_reach("all");
    }
    else if(st == S::WouldBlock) { sym_check(s.rpos == 0 && s.stalls < stalls, "WouldBlock means that nothing has been consumed"); sym_reach("would block"); }
    else
    {
        sym_check(s.last_fault != S::Success, "a failure has a cause");
        sym_check(s.rpos == 0 ? st == s.last_fault : st == S::Disconnected, "a failure is passed on, or is a disconnect if data was lost");
        sym_reach("failed");
    }
    sym_check(s.rpos <= n, "never more than wanted");
    sym_check(same_bytes(buf + 4, s.in.data(), s.rpos), "the bytes which arrived, in order");
    for(size_t i = 0; i < used; i++) if(i < 4 || i >= 4 + s.rpos) sym_check(buf[i] == 0x5a, "nothing else is written");
    sym_reach("done");
    return 0;
}
