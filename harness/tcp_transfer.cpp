// TcpSocket::send_raw and receive_raw over every behaviour of send() and recv().
#include <frnetlib/TcpSocket.h>
#include "kernel.h"
typedef fr::Socket::Status S;
int main()
{
    kernel_init();
    fr::TcpSocket s;
    int d = K.alloc(AF_INET); K.get(d)->connected = true;
    s.set_descriptor(&d);
    bool blocking = sym_choose(2, "non-blocking") == 0;
    if(!blocking) sym_check(s.set_blocking(false) == S::Success, "set_blocking");
    sym_check(K.get(d)->nonblock == !blocking && s.get_blocking() == blocking, "blocking mode");
    K.cuts = sym_param("CUTS", 2); K.eintr = sym_param("EINTR", 1); K.faults = sym_param("FAULTS", 2);
    size_t n = sym_choose(sym_param("N", 4) + 1, "size");
    // a large transfer has arbitrary bytes at its ends
    size_t big = sym_param("BIG", 0);
    auto contents = [&] { if(!big) return sym_string(n, "data"); std::string d(big, 0); for(size_t i = 0; i < big; i++) d[i] = (char)(i * 7 + i / 256); sym_make(&d[0], 1, "data"); sym_make(&d[big - 1], 1, "data"); n = big; return d; };
    if(sym_choose(2, "direction") == 0)
    {
        std::string data = contents();
        size_t sent = 0;
        for(unsigned call = 0; call < 3; call++)
        {
            size_t before = sent; errno = 0;
            unsigned faults = K.faults;
            S st = s.send_raw(data.data(), data.size(), sent);
            int e = errno;
            sym_observe("status", (uint64_t)st); sym_observe("sent", sent);
            sym_check(sent >= before && sent <= n, "sent only grows, up to the size");
            sym_check(K.tx.size() == sent && same_bytes(K.tx.data(), data.data(), sent), "exactly the bytes reported as sent have been passed on, in order, once");
            if(st == S::Success) { sym_check(sent == n, "success means everything has been sent"); sym_reach("sent"); break; }
            sym_check(K.faults < faults, "only a failed system call makes it fail");
            if(e == EWOULDBLOCK) { sym_check(st == (blocking ? S::Timeout : S::WouldBlock), "an exhausted timeout is a Timeout, a full buffer of a non-blocking socket is WouldBlock"); sym_reach("stalled"); }
            else { sym_check(st == S::SendError, "any other failure is an error"); sym_reach("error"); break; }
            // called again with the same arguments, it continues
        }
    }
    else
    {
        K.rx = contents();
        size_t room = big ? big - sym_choose(2, "room") : sym_choose(sym_param("N", 4), "room") + 1, total = 0, whole = room + 16;
        std::string held(whole, 0);
        for(unsigned call = 0; call < 3; call++)
        {
            char *buf = &held[0]; memset(buf, 0x5a, whole);
            size_t received = 77; errno = 0;
            unsigned faults = K.faults;
            size_t pos = K.rpos;
            S st = s.receive_raw(buf, room, received);
            int e = errno;
            sym_observe("status", (uint64_t)st); sym_observe("received", received);
            if(st == S::Success)
            {
                sym_check(received >= 1 && received <= room && K.rpos == pos + received, "the number of bytes which arrived");
                sym_check(same_bytes(buf, K.rx.data() + pos, received), "the bytes which arrived");
                bool kept = true;
                for(size_t i = received; i < whole; i++) kept &= buf[i] == 0x5a;
                sym_check(kept, "nothing else is written");
                total += received; sym_reach("received");
                continue;
            }
            sym_check(received == 0, "nothing is received on failure");
            if(K.faults < faults)
            {
                if(e == EWOULDBLOCK) sym_check(st == (blocking ? S::Timeout : S::WouldBlock), "an exhausted timeout is a Timeout, an empty buffer of a non-blocking socket is WouldBlock");
                else sym_check(st == S::ReceiveError, "any other failure is an error");
            }
            else { sym_check(st == S::Disconnected && K.rpos == n, "the end of the stream is a disconnect"); sym_reach("end"); break; }
        }
    }
    sym_check(K.bad == 0, "only the socket's own descriptor is used");
    sym_check(s.connected() && K.live() == 1, "transfers don't close the socket");
    sym_reach("done");
    return 0;
}
