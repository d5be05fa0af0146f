// Disconnecting a WebSocket: one close frame of the right kind, then the connection is closed, whatever happened before.
#include "ws_peer.h"
typedef fr::Socket::Status S;
int main()
{
    fr::WebSocket<WsPeer> ws;
    ws.up = false; ws.answer = true;
    bool server = false;
    int d = 5;
    unsigned steps = sym_param("STEPS", 3);
    for(unsigned i = 0; i < steps; i++)
    {
        switch(sym_choose(4, "op"))
        {
            case 0:
            {
                if(ws.connected()) { ws.disconnect(); }
                ws.in.clear(); ws.out.clear(); ws.rpos = 0; ws.answer = true;
                sym_check(ws.connect("h", "80", std::chrono::seconds(0)) == S::Success && ws.connected(), "connected");
                server = false; ws.out.clear();
                break;
            }
            case 1:
            {
                ws.out.clear(); ws.rpos = 0; ws.answer = false;
                ws.in = "GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: keep-alive, Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
                ws.set_descriptor(&d);
                sym_check(ws.connected(), "accepted");
                server = true; ws.out.clear();
                break;
            }
            case 2: { ws.close_socket(); sym_check(!ws.connected() && ws.out.empty(), "closing says nothing"); break; }
            default:
            {
                bool was = ws.connected(); unsigned closes = ws.closes, sends = ws.send_calls;
                ws.stalls = sym_choose(2, "stall"); ws.faults = sym_choose(2, "fault"); ws.timeouts = true;
                bool f = ws.faults;
                ws.disconnect();
                sym_check(!ws.connected(), "the connection is closed");
                if(!was) sym_check(ws.out.empty() && ws.send_calls == sends && ws.closes == closes, "nothing is sent without a connection");
                else
                {
                    sym_check(ws.closes == closes + 1, "once");
                    if(ws.out.empty()) sym_check(f, "without a failure the peer is told");
                    else
                    {
                        const unsigned char *b = (const unsigned char*)ws.out.data();
                        sym_check(ws.out.size() == (server ? 2u : 6u) && b[0] == 0x88 && b[1] == (server ? 0 : 0x80), "a close frame, masked if it's the client's");
                        sym_reach(server ? "server" : "client");
                    }
                }
                ws.stalls = ws.faults = 0; ws.out.clear();
            }
        }
    }
    sym_reach("done");
    return 0;
}
