// A bit of everything the library does, on objects of its own. K is the kernel model's state, T the TLS model's.
#pragma once
#include <frnetlib/Base64.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/Packet.h>
#include <frnetlib/Packetable.h>
#include <frnetlib/Sha1.h>
#include <frnetlib/SocketSelector.h>
#include <frnetlib/SSLListener.h>
#include <frnetlib/SSLSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/URL.h>
#include <frnetlib/WebFrame.h>
#include <frnetlib/WebSocket.h>
#define FRV_THREADS 1        // every thread has its own kernel
#include "ws_peer.h"
#include "tls.h"
typedef fr::Socket::Status S;
static std::shared_ptr<fr::SSLContext> ctx;     // shared, as it's meant to be
static std::string num(uint64_t v) { std::string s; do s.insert(s.begin(), (char)('0' + v % 10)); while(v /= 10); return s + ";"; }
static const unsigned OPS = 18;
static std::string work(unsigned op, const std::string &in)
{
    std::string r;
    switch(op)
    {
        case 0:
        {
            // what a client sends is masked, and what arrives is what was sent
            FakeSocket a, b; fr::ClientWebFrame c; fr::ServerWebFrame s;
            for(int i = 0; i < 2; i++) { c.set_payload(in); r += num((unsigned)a.send(c)); }
            b.in = a.out;
            for(int i = 0; i < 2; i++) { r += num((unsigned)b.receive(s)); r += s.get_payload(); }
            break;
        }
        case 1:
        {
            FakeSocket a; fr::ServerWebFrame s; s.set_payload(in); r += num((unsigned)a.send(s)); r += a.out;
            FakeSocket b; b.in = a.out; fr::ClientWebFrame c; r += num((unsigned)b.receive(c)); r += c.get_payload();
            break;
        }
        case 2:
        {
            fr::HttpRequest q; std::string m = "POST /p%41?k=" + in + " HTTP/1.1\r\nHost: h\r\nContent-Length: 2\r\nTransfer-Encoding: identity\r\n\r\na=";
            r += num((unsigned)q.parse(m.data(), m.size())); r += num((unsigned)q.get_type()); r += q.get_uri() + q.get("k") + q.header("host") + q.get_body();
            break;
        }
        case 3:
        {
            fr::HttpRequest q; q.set_type(fr::Http::RequestType::Post); q.set_uri("/x"); q.get("g") = in; q.post("p") = in; q.header("h") = "v";
            r += q.construct("example.com");
            break;
        }
        case 4:
        {
            fr::HttpResponse q; std::string m = "HTTP/1.1 200 OK\r\nX: " + in + "\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\n\r\n";
            r += num((unsigned)q.parse(m.data(), m.size())); r += num((unsigned)q.get_status()); r += q.header("x") + q.get_body();
            break;
        }
        case 5: { fr::HttpResponse q; q.set_status(fr::Http::RequestStatus::NotFound); q.set_body(in); q.header("h") = "v"; r += q.construct("example.com"); break; }
        case 6: r += fr::Http::get_mimetype("a.html"); r += fr::Http::get_mimetype("b.png"); r += fr::Http::get_mimetype("nothing"); break;
        case 7:
        {
            fr::URL u("https://host:81/" + in + "?q#f"); r += u.get_host() + u.get_port() + u.get_path() + u.get_query() + u.get_fragment();
            r += fr::URL::scheme_to_string(fr::URL::Scheme::HTTPS); r += num((unsigned)fr::URL::string_to_scheme("ftp")); r += u.get_url();
            break;
        }
        case 8:
        {
            fr::Packet p; p << in << uint32_t(7) << std::vector<uint16_t>{1, 2} << 1.5;
            FakeSocket a; r += num((unsigned)a.send(p)); FakeSocket b; b.in = a.out; fr::Packet q; r += num((unsigned)b.receive(q));
            std::string s; uint32_t n = 0; std::vector<uint16_t> v; double d = 0; q >> s >> n >> v >> d; r += s + num(n) + num(v.size()) + num((uint64_t)d);
            break;
        }
        case 9: r += fr::Base64::encode(fr::Sha1::sha1_digest(in)) + fr::Base64::encode(in); break;
        case 10: r += fr::Http::url_encode(in); r += fr::Http::url_decode("%4" + in.substr(0, 1) + "+"); break;
        case 11:
            r += fr::Http::request_type_to_string(fr::Http::RequestType::Patch); r += num((unsigned)fr::Http::string_to_request_type("PUT"));
            r += num((unsigned)fr::Http::string_to_transfer_encoding("gzip")); r += num((unsigned)fr::Http::string_to_transfer_encoding("no"));
            for(unsigned i = 0; i < 22; i++) r += fr::Socket::status_to_string((S)i).substr(0, 5);
            break;
        case 12:
        {
            fr::WebSocket<WsPeer> w; w.up = false; w.answer = true; w.extra = std::string("\x81\x02hi", 4);
            r += num((unsigned)w.connect("server.example.com", "80", std::chrono::seconds(3)));
            fr::ClientWebFrame f; r += num((unsigned)w.receive(f)); r += f.get_payload(); w.disconnect(); r += num(w.closes);
            break;
        }
        case 13:
        {
            fr::WebSocket<WsPeer> w; w.up = false; int d = 5;
            w.in = "GET /chat HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
            w.set_descriptor(&d); r += num(w.out.size()); w.disconnect(); r += num(w.closes);
            break;
        }
        case 14:
        {
            fr::TcpSocket s; s.set_inet_version(fr::Socket::IP::v4); K.rx = in; K.rpos = 0; K.tx.clear();
            r += num((unsigned)s.connect("h", "80", std::chrono::seconds(2))); size_t n = 0;
            r += num((unsigned)s.set_blocking(false)); r += num((unsigned)s.send_raw("xyz", 3, n)); char b[8]; size_t m = 0; r += num((unsigned)s.receive_raw(b, 8, m)); r.append(b, m);
            r += s.get_remote_address() + K.tx; r += num((unsigned)s.receive_raw(b, 8, m)); r += num(s.connected());
            break;
        }
        case 15:
        {
            fr::TcpListener l; l.set_inet_version(fr::Socket::IP::v4); fr::TcpSocket s;
            r += num((unsigned)l.listen("80")); r += num((unsigned)l.accept(s)); r += s.get_remote_address(); l.shutdown();
            break;
        }
        case 16:
        {
            fr::SocketSelector sel; auto s = std::make_shared<fr::TcpSocket>(), t = std::make_shared<fr::TcpSocket>();
            int d = K.alloc(AF_INET); K.get(d)->connected = true; s->set_descriptor(&d); d = K.alloc(AF_INET); K.get(d)->connected = true; t->set_descriptor(&d);
            sel.add(s, &r); sel.add(t, &sel); r += num(sel.wait(std::chrono::milliseconds(5)).size()); r += num(sel.remove(s) == &r); r += num(sel.wait(std::chrono::milliseconds(5)).size());
            break;
        }
        case 17:
        {
            // a context may be shared: nothing changes it any more
            fr::SSLSocket s(ctx); s.set_inet_version(fr::Socket::IP::v4); K.rx = in; K.rpos = 0; K.tx.clear();
            r += num((unsigned)s.connect("h", "443", std::chrono::seconds(2))); size_t n = 0;
            r += num((unsigned)s.send_raw("xyz", 3, n)); char b[8]; size_t m = 0; r += num((unsigned)s.receive_raw(b, 8, m)); r.append(b, m); r += K.tx;
            break;
        }
    }
    return r;
}
static void work_init()
{
    for(unsigned i = 0; i < 3; i++)
    {
        frv_kernel = &frv_kernels[i];
        memset(K.fd, 0, sizeof K.fd); memset(K.reg, 0, sizeof K.reg);
        K.sigpipe_ignored = K.all_ready = true; K.naddr = 1;
    }
    frv_kernel = &frv_kernels[0];
    ctx = std::make_shared<fr::SSLContext>();
    for(unsigned i = 0; i < 3; i++) { frv_tlss[i].trust = &ctx->cacert; frv_tlss[i].cert_host = "h"; }
}
