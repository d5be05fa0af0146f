// A fr::Socket whose transport is scripted by the harness: what arrives, how it is cut into segments,
// and which calls stall or fail is chosen symbolically.
#pragma once
#include <frnetlib/Socket.h>
#include <string>
#include <vector>
#include "sym.h"
struct FakeSocket : public fr::Socket
{
    typedef fr::Socket::Status S;
    std::string in;             // what the peer sends
    size_t rpos = 0;
    std::string out;            // what the peer gets
    bool up = true;             // connected
    unsigned cuts = 0;          // how many reads may return less than what is there
    unsigned stalls = 0;        // how many calls may return WouldBlock
    unsigned faults = 0;        // how many calls may fail
    bool timeouts = false;      // failures may be timeouts
    bool send_cuts = false;     // sends may stop half way with WouldBlock
    unsigned recv_calls = 0, send_calls = 0, closes = 0;
    S last_fault = S::Success;
    S end_status = S::Disconnected;
    size_t max_read = 0;        // the largest size asked for
    bool blocking = true;
    int desc = 7;

    Status connect(const std::string &, const std::string &, std::chrono::seconds) override { up = true; return S::Success; }
    Status set_blocking(bool b) override { blocking = b; return S::Success; }
    bool get_blocking() const override { return blocking; }
    bool connected() const override { return up; }
    int32_t get_socket_descriptor() const override { return up ? desc : -1; }
    void set_descriptor(void *d) override { up = d != nullptr; }
    void close_socket() override { if(up) closes++; up = false; }
    void reconfigure_socket() override {}
    S fault(S fatal)
    {
        unsigned k = sym_choose(timeouts ? 3 : 2, "fault");
        return last_fault = k == 0 ? S::Disconnected : k == 1 ? fatal : S::Timeout;
    }
    Status send_raw(const char *data, size_t size, size_t &sent) override
    {
        send_calls++;
        if(!up) return S::SendError;
        sym_check(sent <= size, "no more is claimed to have been sent than there is");
        unsigned opts = 1, wb = 0, ft = 0;
        if(stalls) wb = opts++;
        if(faults) ft = opts++;
        unsigned k = opts > 1 ? sym_choose(opts, "send") : 0;
        size_t left = size - sent;
        if(k && k == wb)
        {
            stalls--;
            size_t n = send_cuts && left ? sym_cut(left, "sent before stalling") - 1 : 0;
            out.append(data + sent, n); sent += n;
            return S::WouldBlock;
        }
        if(k && k == ft) { faults--; return fault(S::SendError); }
        out.append(data + sent, left);
        sent = size;
        return S::Success;
    }
    Status receive_raw(void *data, size_t want, size_t &received) override
    {
        recv_calls++;
        received = 0;
        if(want > max_read) max_read = want;
        if(!up) return S::Disconnected;
        unsigned opts = 1, wb = 0, ft = 0;
        if(stalls) wb = opts++;
        if(faults) ft = opts++;
        unsigned k = opts > 1 ? sym_choose(opts, "receive") : 0;
        if(k && k == wb) { stalls--; return S::WouldBlock; }
        if(k && k == ft) { faults--; return fault(S::ReceiveError); }
        size_t n = in.size() - rpos;
        if(n == 0) { last_fault = end_status; return end_status; }
        if(n > want) n = want;
        if(n == 0) return S::Success;
        if(cuts && n > 1)
        {
            size_t m = sym_cut(n, "segment");
            if(m < n) cuts--;
            n = m;
        }
        memcpy(data, in.data() + rpos, n);
        rpos += n;
        received = n;
        return S::Success;
    }
};
