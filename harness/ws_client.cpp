// The client's side of the WebSocket handshake.
#include "ws_peer.h"
typedef fr::Socket::Status S;
int main()
{
    fr::WebSocket<WsPeer> ws;
    unsigned mode = sym_choose(5, "mode");
    ws.up = false; ws.answer = true;
    std::vector<std::string> protos;
    unsigned np = mode == 0 || mode == 4 ? sym_choose(4, "protocols") : 0;
    static const char *names[] = {"chat", "superchat", "v1.x"};
    std::string joined;
    for(unsigned i = 0; i < np; i++) { protos.push_back(names[i]); joined += (i ? ", " : "") + protos.back(); }
    bool digits_ok = true;
    if(mode == 1)
    {
        // any accept key
        ws.right_accept = false; ws.accept = sym_string(28, "accept");
        for(char &c : ws.accept) sym_assume((c > 32) & (c < 127));
    }
    else if(mode == 2)
    {
        // any status
        ws.status = sym_string(3, "status");
        for(char &c : ws.status) sym_assume((c >= '0') & (c <= '9'));
        digits_ok = (ws.status[0] == '1') & (ws.status[1] == '0') & (ws.status[2] == '1');
    }
    bool agreed = true;
    if(mode == 4)
    {
        // what else the answer says
        unsigned odd = sym_choose(12, "answer");
        if(odd == 0) { ws.upgrade.clear(); agreed = false; }
        else if(odd == 1) { ws.connection.clear(); agreed = false; }
        else if(odd == 2)
        {
            std::string u = sym_string(9, "upgrade"); agreed = true;
            for(size_t i = 0; i < 9; i++) { sym_assume((u[i] > 32) & (u[i] < 127)); agreed &= lower(u[i]) == "websocket"[i]; }
            ws.upgrade = "Upgrade: " + u + "\r\n";
        }
        else if(odd == 3) { ws.connection = "Connection: keep-alive\r\n"; agreed = false; }
        else if(odd == 4) ws.connection = "connection: keep-alive, upgrade\r\n";
        else if(odd == 5) ws.connection = "CONNECTION:  UPGRADE , keep-alive\r\n";
        else if(odd == 6) { ws.more = "Sec-WebSocket-Extensions: permessage-deflate\r\n"; agreed = false; }
        else if(odd < 10) { ws.more = std::string("Sec-WebSocket-Protocol: ") + names[odd - 7] + "\r\n"; agreed = np > odd - 7; }
        else if(odd == 10) { ws.more = "Sec-WebSocket-Protocol: cha\r\n"; agreed = false; }
        else ws.more = "Server: something\r\nDate: Fri, 20 Nov 2026 00:00:00 GMT\r\n";
    }
    if(mode == 0) ws.extra = sym_choose(3, "frames") ? (sym_choose(2, "frame") ? std::string("\x81\x02hi", 4) : std::string("\x81\x02hi\x82\0", 6)) : "";
    else if(mode == 3) { ws.faults = 1; ws.stalls = 1; ws.timeouts = true; ws.cuts = sym_param("CUTS", 0); }
    std::string path = "/";
    if(mode == 0)
    {
        std::string p = sym_string(sym_choose(3, "path size"), "path");
        for(char &c : p) sym_assume((c > 32) & (c < 127) & (c != '#'));
        path = "/chat" + p;
    }
    S st = mode == 0 || mode == 4 ? ws.connect("server.example.com", "80", path, protos, std::chrono::seconds(3)) : ws.connect("server.example.com", "80", std::chrono::seconds(3));
    sym_observe("status", (uint64_t)st);
    if(ws.request.size())
    {
        std::string k, v;
        const std::string &r = ws.request;
        std::string first = "GET " + path + " HTTP/1.1\r\n";
        sym_check(r.size() >= first.size() && same_bytes(r.data(), first.data(), first.size()), "the request is for the path which was asked for");
        sym_check(find_header(r, "upgrade", v) && v == "websocket" && find_header(r, "connection", v) && (v == "upgrade" || v == "Upgrade"), "an upgrade to WebSocket is requested");
        sym_check(find_header(r, "sec-websocket-version", v) && v == "13", "of version 13");
        sym_check(find_header(r, "sec-websocket-key", k) && k.size() == 24 && k[22] == '=' && k[23] == '=', "with a key of 16 bytes");
        sym_check(find_header(r, "sec-websocket-protocol", v) ? np > 0 && v == joined : np == 0, "and the protocols which are supported");
        if(mode == 1)
        {
            std::string want = accept_key(k);
            bool same = want.size() == 28 && same_str(want, ws.accept);
            if(st == S::Success) sym_check(same, "a wrong accept key fails the handshake");
            else sym_check(!same && st == S::HandshakeFailed, "the right accept key is accepted");
        }
    }
    if(mode == 0) sym_check(st == S::Success, "a proper handshake succeeds");
    if(mode == 4) sym_check(st == (agreed ? S::Success : S::HandshakeFailed), "an answer which doesn't agree to what was offered fails the handshake");
    if(mode == 2) sym_check(digits_ok ? st == S::Success : st == S::HandshakeFailed, "only 101 switches the protocol");
    if(mode == 3 && ws.faults == 1) sym_check(st == S::Success || (st == S::WouldBlock && ws.stalls == 0), "without a failure the handshake succeeds");
    if(mode == 3 && ws.faults == 0) sym_check(st != S::Success, "a handshake which can't be exchanged fails");
    if(st == S::Success && ws.extra.size())
    {
        // frames which the server sends together with its answer
        fr::ClientWebFrame f;
        fr::Socket &s = ws;
        sym_check(s.receive(f) == S::Success && f.get_payload() == "hi" && f.get_opcode() == fr::WebFrame::Opcode::Text, "the first frame follows");
        if(ws.extra.size() > 4) sym_check(s.receive(f) == S::Success && f.get_payload().empty() && f.get_opcode() == fr::WebFrame::Opcode::Binary, "and the second one");
        sym_check(ws.rpos == ws.in.size(), "nothing is lost");
        sym_reach("frames");
    }
    if(st == S::Success) { sym_check(ws.connected() && ws.closes == 0, "the socket is connected"); sym_reach("connected"); }
    else { sym_check(!ws.connected() && ws.closes == 1, "a failed handshake leaves the socket disconnected"); sym_reach("failed"); }
    sym_reach("done");
    return 0;
}
