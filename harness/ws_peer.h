// The other end of a WebSocket handshake.
#pragma once
#include <frnetlib/WebSocket.h>
#include "fake_socket.h"
static inline char lower(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
// the value of a header of a message without symbolic contents
static inline bool find_header(const std::string &msg, const std::string &name, std::string &value)
{
    size_t end = msg.find("\r\n\r\n");
    for(size_t p = msg.find("\r\n"); p != std::string::npos && p < end; )
    {
        size_t b = p + 2, e = msg.find("\r\n", b), c = msg.find(':', b);
        if(c != std::string::npos && c < e && c - b == name.size())
        {
            bool m = true;
            for(size_t i = 0; i < name.size(); i++) m &= lower(msg[b + i]) == lower(name[i]);
            if(m) { size_t v = c + 1; while(msg[v] == ' ') v++; value = msg.substr(v, e - v); return true; }
        }
        p = e;
    }
    return false;
}
// whether "name: value\r\n" is a line of the message; doesn't branch on its contents
static inline bool has_header(const std::string &msg, const std::string &name, const std::string &value)
{
    std::string l = "\r\n" + name + ": " + value + "\r\n";
    bool any = false;
    for(size_t p = 0; p + l.size() <= msg.size(); p++)
    {
        bool m = true;
        for(size_t i = 0; i < l.size(); i++) m &= i < name.size() + 2 ? ((uint8_t)(msg[p + i] | 0x20) == (uint8_t)(l[i] | 0x20)) : msg[p + i] == l[i];
        any |= m;
    }
    return any;
}
static inline std::string accept_key(const std::string &key) { return fr::Base64::encode(fr::Sha1::sha1_digest(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
struct WsPeer : public FakeSocket
{
    // the answer to a client's handshake
    bool answer = false;
    std::string status = "101", upgrade = "Upgrade: websocket\r\n", connection = "Connection: Upgrade\r\n", more, accept, request, extra; bool right_accept = true;
    Status receive_raw(void *data, size_t want, size_t &received) override
    {
        if(answer && in.empty() && up)
        {
            request = out; out.clear();
            std::string k;
            find_header(request, "sec-websocket-key", k);
            in = "HTTP/1.1 " + status + " Switching Protocols\r\n" + upgrade + connection + more + "Sec-WebSocket-Accept: " + (right_accept ? accept_key(k) : accept) + "\r\n\r\n" + extra;
        }
        return FakeSocket::receive_raw(data, want, received);
    }
};
