// The server's side of the WebSocket handshake.
#include "ws_peer.h"
typedef fr::Socket::Status S;
static std::string request(const std::string &method, const std::string &upgrade, const std::string &key)
{
    return method + " /chat HTTP/1.1\r\nHost: server.example.com\r\nUpgrade: " + upgrade + "\r\nConnection: Upgrade\r\n" + "Sec-WebSocket-Key: " + key + "\r\n" + "Sec-WebSocket-Version: 13\r\n\r\n";
}
int main()
{
    fr::WebSocket<WsPeer> ws;
    int d = 5;
    unsigned mode = sym_param("MODE", 0);
    if(mode == 0)
    {
        // every key
        std::string key = sym_string(sym_param("KEY", 24), "key");
        for(char &c : key) sym_assume(((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '+') | (c == '/') | (c == '='));
        ws.in = request("GET", "websocket", key);
        ws.up = false;
        ws.set_descriptor(&d);
        sym_check(ws.connected(), "a proper handshake is accepted");
        sym_check(ws.out.compare(0, 13, "HTTP/1.1 101 ") == 0, "the protocol is switched");
        sym_check(has_header(ws.out, "Sec-WebSocket-Accept", accept_key(key)), "the accept key is the one which belongs to the client's key");
        sym_check(ws.out.compare(ws.out.size() - 4, 4, "\r\n\r\n") == 0, "the response is complete");
        sym_check(ws.rpos == ws.in.size(), "the request is consumed");
        sym_reach("accepted");
    }
    else if(mode == 1)
    {
        // RFC 6455's example, with headers in any case
        unsigned u = sym_choose(3, "case");
        std::string r = request("GET", "websocket", "dGhlIHNhbXBsZSBub25jZQ==");
        if(u) for(size_t p = r.find("\r\n"); p < r.size(); ) { size_t c = r.find(':', p); if(c == std::string::npos) break; for(size_t i = p; i < c; i++) { char l = lower(r[i]); r[i] = u == 1 ? l : l >= 'a' && l <= 'z' ? (char)(l - 32) : l; } p = r.find("\r\n", c); if(p == std::string::npos) break; }
        ws.in = r; ws.up = false;
        ws.cuts = sym_param("CUTS", 0);
        ws.set_descriptor(&d);
        fr::HttpResponse res;
        sym_check(res.parse(ws.out.data(), ws.out.size()) == S::Success, "the response can be parsed");
        sym_check(res.get_status() == fr::Http::RequestStatus::SwitchingProtocols, "the protocol is switched");
        sym_check(res.header("sec-websocket-accept") == "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=", "the key of the RFC's example");
        sym_check(res.header("upgrade") == "websocket" && res.header_exists("connection"), "the upgrade is confirmed");
        sym_reach("accepted");
    }
    else
    {
        // anything else isn't upgraded
        static const char *methods[] = {"GET", "POST", "PUT", "DELETE", "PATCH"};
        static const char *parts[] = {"Host", "Upgrade", "Connection", "Sec-WebSocket-Key", "Sec-WebSocket-Version"};
        std::string m = methods[sym_choose(5, "method")], up = "websocket";
        // one part of the handshake which is missing or wrong, or spelled in another way
        unsigned odd = m == "GET" ? sym_choose(15, "part") : 0;
        bool lacks = odd && odd < 10;
        if(odd == 0 && sym_choose(2, "other value")) { up = sym_string(9, "upgrade"); for(char &c : up) sym_assume((c > 32) & (c < 127)); }
        ws.in = request(m, up, "dGhlIHNhbXBsZSBub25jZQ==");
        auto put = [&ws](const std::string &line, const std::string &with) { size_t p = ws.in.find(line); ws.in.replace(p, line.size(), with); };
        if(odd && odd < 6) { size_t p = ws.in.find(std::string("\r\n") + parts[odd - 1] + ":"); ws.in.erase(p, ws.in.find("\r\n", p + 2) - p); }
        else if(odd == 6) { std::string v = sym_string(2, "version"); bool is13 = (v[0] == '1') & (v[1] == '3'); sym_assume((v[0] > 32) & (v[0] < 127) & (v[1] > 32) & (v[1] < 127) & !is13); put("Version: 13", "Version: " + v); }
        else if(odd == 7) put("Connection: Upgrade", "Connection: keep-alive");
        else if(odd == 8) put("Connection: Upgrade", "Connection: Upgraded");
        else if(odd == 9) put("HTTP/1.1", "HTTP/1.0");
        else if(odd == 10) put("Connection: Upgrade", "Connection: keep-alive, Upgrade");
        else if(odd == 11) put("Connection: Upgrade", "Connection: upgrade,keep-alive");
        else if(odd == 12) put("Connection: Upgrade", "Connection:UPGRADE \t");
        else if(odd == 13) put("Connection: Upgrade", "Connection: a ,\tuPgrade , b");
        else if(odd == 14) put("Host: server.example.com", "Host: [2001:db8::1]:8080\r\nOrigin: http://example.com\r\nSec-WebSocket-Protocol: chat\r\nSec-WebSocket-Extensions: permessage-deflate");
        bool cut = !odd && sym_choose(2, "cut off");
        if(cut) ws.in.resize(sym_choose((uint32_t)ws.in.size(), "length"));
        else if(!odd) { ws.faults = sym_param("FAULTS", 1); ws.timeouts = true; ws.cuts = ws.faults; }
        unsigned faults = ws.faults;
        ws.up = false;
        bool threw = false;
        try { ws.set_descriptor(&d); } catch(const std::exception &) { threw = true; }
        bool switched = ws.out.compare(0, 12, "HTTP/1.1 101") == 0;
        bool ok = !cut && m == "GET" && !lacks && ws.faults == faults;
        bool alike = true;
        for(size_t i = 0; i < 9; i++) alike &= lower(up[i]) == "websocket"[i];
        sym_observe("switched", switched);
        sym_check(threw == !ws.connected(), "a connection which isn't a WebSocket's isn't kept");
        if(!ok) { sym_check(threw, "what isn't a WebSocket handshake fails"); sym_check(cut || ws.faults != faults || ws.out.find(" 101") == std::string::npos, "and isn't upgraded"); sym_reach("rejected"); }
        else if(alike) { sym_check(switched && !threw, "a proper handshake is accepted"); sym_reach("accepted"); }
        else { sym_check(threw && !switched, "another protocol isn't agreed to"); sym_reach("other protocol"); }
    }
    sym_reach("done");
    return 0;
}
