// Sending and receiving over an SSLSocket: every byte once and in order, whatever the TLS library returns.
#include <frnetlib/SSLListener.h>
#include "tls.h"
typedef fr::Socket::Status S;
int main()
{
    kernel_init();
    K.naddr = 1;
    auto ctx = std::make_shared<fr::SSLContext>();
    T.trust = &ctx->cacert; T.cert_host = "h";
    fr::SSLSocket s(ctx);
    sym_check(s.connect("h", "443", std::chrono::seconds(0)) == S::Success, "connected");
    bool blocking = sym_choose(2, "blocking");
    if(!blocking) sym_check(s.set_blocking(false) == S::Success, "non-blocking");
    size_t N = sym_param("N", 4);
    size_t big = sym_param("BIG", 0);
    auto contents = [&](size_t n) { if(!big) return sym_string(n, "data"); std::string d(big, 0); for(size_t i = 0; i < big; i++) d[i] = (char)(i * 7 + i / 256); sym_make(&d[0], 1, "data"); sym_make(&d[big - 1], 1, "data"); return d; };
    K.cuts = sym_param("CUTS", 2); T.stalls = sym_param("STALLS", 2); K.faults = sym_param("FAULTS", 1);
    if(sym_choose(2, "direction") == 0)
    {
        std::string d = contents(big ? 0 : sym_choose((uint32_t)N + 1, "size"));
        std::string keep = d;
        size_t sent = 0;
        for(unsigned tries = 0; tries < 6; tries++)
        {
            unsigned stalls = T.stalls, faults = K.faults; size_t before = sent;
            S st = s.send_raw(d.data(), d.size(), sent);
            sym_observe("status", (uint64_t)st);
            sym_check(sent >= before && sent <= d.size(), "what has been sent is counted");
            sym_check(K.tx.size() == sent && same_bytes(K.tx.data(), keep.data(), sent), "every byte is sent once, and in order");
            if(st == S::Success) { sym_check(sent == d.size(), "success means all of it"); sym_reach("sent"); break; }
            if(st == S::WouldBlock) { sym_check(!blocking && T.stalls < stalls, "only a non-blocking socket would block"); sym_reach("would block"); continue; }
            if(st == S::Timeout && T.stalls < stalls && K.faults == faults) { sym_check(blocking, "a non-blocking socket doesn't time out"); continue; }
            sym_check(K.faults < faults, "it only fails if the TLS library does");
            sym_check(st == S::Timeout ? blocking && T.last_error == MBEDTLS_ERR_NET_SEND_FAILED : st == S::SSLError || st == S::Disconnected, "and says so");
            sym_reach("send failed");
            break;
        }
    }
    else
    {
        K.rx = contents(N);
        std::string got, held(big + 16, 0);
        for(unsigned tries = 0; tries < N + 6; tries++)
        {
            unsigned stalls = T.stalls, faults = K.faults;
            char *buf = &held[0]; memset(buf, 0x5a, held.size());
            size_t want = big ? big : 1 + sym_choose(2, "want") * 3, n = 99, rpos = K.rpos;
            S st = s.receive_raw(buf + 2, want, n);
            sym_observe("status", (uint64_t)st);
            sym_check(n <= want, "never more than asked for");
            bool kept = true;
            for(size_t i = 0; i < held.size(); i++) if(i < 2 || i >= 2 + n) kept &= buf[i] == 0x5a;
            sym_check(kept, "nothing else is written");
            got.append(buf + 2, n);
            sym_check(got.size() == K.rpos && same_bytes(got.data(), K.rx.data(), got.size()), "every byte is received once, and in order");
            if(st == S::Success) { sym_check(n > 0 && K.rpos == rpos + n, "success means that something has been received"); sym_reach("received"); continue; }
            sym_check(n == 0, "nothing is received otherwise");
            if(st == S::WouldBlock) { sym_check(!blocking && T.stalls < stalls, "only a non-blocking socket would block"); sym_reach("would block"); continue; }
            if(st == S::Timeout && T.stalls < stalls && K.faults == faults) { sym_check(blocking, "a non-blocking socket doesn't time out"); continue; }
            if(K.faults == faults) { sym_check(st == S::Disconnected && K.rpos == K.rx.size(), "the end of the connection is a disconnect"); sym_reach("end"); break; }
            sym_check(st == S::Timeout ? blocking && T.last_error == MBEDTLS_ERR_NET_RECV_FAILED : st == S::SSLError || st == S::Disconnected, "an error is passed on");
            sym_reach("receive failed");
            break;
        }
    }
    sym_check(K.bad == 0 && T.bad == 0, "nothing is used which has been closed or freed");
    sym_reach("done");
    return 0;
}
