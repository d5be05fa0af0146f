// Socket::receive_all with any size (up to 2^47 bytes), every read returning any number of bytes: nothing is stored here,
// only where the bytes would go is looked at.
#include <frnetlib/Socket.h>
#include "fake_socket.h"
typedef fr::Socket::Status S;
static char buf[16];
struct Sizes : public FakeSocket
{
    uint64_t n = 0, total = 0; unsigned reads = 0, max = 3; bool broke = false, stalled = false;
    Status receive_raw(void *data, size_t want, size_t &received) override
    {
        received = 0;
        sym_check((uintptr_t)data == (uintptr_t)buf + total, "the bytes go behind the ones which are already there");
        sym_check((want >= 1) & (want <= n - total), "no more is asked for than there is room for");
        unsigned k = reads < max ? sym_choose(3, "read") : 2; reads++;
        if(reads > max + 4) sym_kill();       // it needn't ask for all of it at once
        if(k == 1) { stalled = true; return S::WouldBlock; }
        uint64_t m = sym_val<uint64_t>("count");
        if(k == 2) m = want;        // everything that's left: the last one
        sym_assume((m >= 1) & (m <= want));
        received = m; total += m;
        return S::Success;
    }
};
int main()
{
    Sizes s; s.n = sym_val<uint64_t>("size"); s.max = sym_param("READS", 3);
    sym_assume(s.n <= (1ull << 47));
    S st = s.receive_all(buf, s.n);
    sym_observe("status", (uint64_t)st);
    if(st == S::Success) { sym_check(s.total == s.n, "success means all of it"); sym_reach("all"); }
    else { sym_check(st == S::WouldBlock && s.stalled && s.total == 0, "WouldBlock means that nothing has been consumed"); sym_reach("would block"); }
    sym_reach("done");
    return 0;
}
