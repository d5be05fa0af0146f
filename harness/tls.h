// A model of mbed TLS 2.28 as the library uses it, on top of the kernel model: its contexts are tracked, and what
// a handshake, a read or a write returns is chosen symbolically within its documented contract.
// The same definitions stand in for mbed TLS in the native replay.
#pragma once
#include "kernel.h"
#include <mbedtls/net_sockets.h>
#include <mbedtls/ssl.h>
#include <mbedtls/x509_crt.h>
#include <mbedtls/pk.h>
#include <mbedtls/ctr_drbg.h>
#include <mbedtls/entropy.h>
#include <mbedtls/error.h>
struct TlsCtx { bool dead, live, setup, shaken; const void *ctx; const mbedtls_ssl_config *conf; void *bio; bool io; std::string host; bool has_host; uint32_t verify; const void *pbuf; size_t plen; std::string pdata; };
struct TlsConf { bool live, defaults, rng; const mbedtls_ssl_config *ctx; int endpoint, authmode; const mbedtls_x509_crt *ca; bool own; };
struct Tls
{
    static const int MAX = 6;
    TlsCtx c[MAX]; TlsConf f[MAX];
    unsigned bad = 0, stalls = 0, handshakes = 0, accepts = 0;
    const mbedtls_x509_crt *parsed_into = nullptr; std::string parsed, crt_path, key_path; int parse_result = 0; unsigned parses = 0;      // the last call which parses certificates
    const void *seeded = nullptr, *seeder = nullptr;
    int crts = 0, pks = 0, drbgs = 0, entropies = 0;
    bool cert_trusted = true, cert_name = true; std::string cert_host;      // the peer's certificate
    const mbedtls_x509_crt *trust = nullptr;
    bool eof = false; int last_error = 0;
    int would_block = 0;        // 1: a non-blocking descriptor, 2: a blocking one which has timed out
    int live() { int n = 0; for(auto &x : c) n += x.live; return n; }
    int confs() { int n = 0; for(auto &x : f) n += x.live; return n; }
    TlsCtx *get(const void *p) { for(auto &x : c) if(x.live && x.ctx == p) return &x; bad++; return nullptr; }
    TlsConf *conf(const void *p) { for(auto &x : f) if(x.live && x.ctx == p) return &x; bad++; return nullptr; }
    int err(const char *what) { if(!K.faults || !sym_choose(2, what)) return 0; K.faults--; K.trouble = true; int e = sym_val<int>("mbedtls_error"); sym_assume((e < 0) & (e > -0x8000) & (e != MBEDTLS_ERR_SSL_WANT_READ) & (e != MBEDTLS_ERR_SSL_WANT_WRITE)); last_error = e; return e; }
};
#ifdef FRV_THREADS
static Tls frv_tlss[3]; static thread_local Tls *frv_tls = &frv_tlss[0];
#define T (*frv_tls)
#else
static Tls T;
#endif
extern "C"
{
    void mbedtls_net_init(mbedtls_net_context *n) { n->fd = -1; }
    void mbedtls_net_free(mbedtls_net_context *n) { if(n->fd == -1) return; shutdown(n->fd, 2); close(n->fd); n->fd = -1; }
    int mbedtls_net_send(void *, const unsigned char *, size_t) { sym_kill(); }
    int mbedtls_net_recv(void *, unsigned char *, size_t) { sym_kill(); }
    int mbedtls_net_recv_timeout(void *, unsigned char *, size_t, uint32_t) { sym_kill(); }
    int mbedtls_net_set_block(mbedtls_net_context *n) { KFd *f = K.use(n->fd); if(!f) return -1; if(K.fail("set_block")) return -1; f->nonblock = false; return 0; }
    int mbedtls_net_set_nonblock(mbedtls_net_context *n) { KFd *f = K.use(n->fd); if(!f) return -1; if(K.fail("set_nonblock")) return -1; f->nonblock = true; return 0; }
    int mbedtls_net_accept(mbedtls_net_context *l, mbedtls_net_context *n, void *ip, size_t cap, size_t *len)
    {
        KFd *f = K.use(l->fd); if(!f) return MBEDTLS_ERR_NET_INVALID_CONTEXT;
        sym_check(f->listening, "accept on a listening socket");
        if(K.shut_ends && f->shut_rd) { errno = EINVAL; return MBEDTLS_ERR_NET_ACCEPT_FAILED; }
        if(int e = T.err("accept")) { K.set_errno(); return e; }
        sym_check(n->fd == -1, "a fresh context is accepted into");
        n->fd = K.alloc(f->family); K.get(n->fd)->connected = true; K.get(n->fd)->origin = 100;
        if(ip) { sym_check(cap >= 16, "room for an address"); *len = 4; memset(ip, 0, 4); }
        T.accepts++;
        return 0;
    }
    void mbedtls_ssl_init(mbedtls_ssl_context *s) { memset(s, 0, sizeof *s); for(auto &x : T.c) if(!x.live) { x = TlsCtx(); x.live = true; x.ctx = s; return; } sym_kill(); }
    void mbedtls_ssl_free(mbedtls_ssl_context *s) { if(!s) return; if(TlsCtx *c = T.get(s)) c->live = false; }
    void mbedtls_ssl_config_init(mbedtls_ssl_config *s) { memset(s, 0, sizeof *s); for(auto &x : T.f) if(!x.live) { x = TlsConf(); x.live = true; x.ctx = s; x.authmode = -1; return; } sym_kill(); }
    void mbedtls_ssl_config_free(mbedtls_ssl_config *s) { if(TlsConf *c = T.conf(s)) c->live = false; for(auto &x : T.c) if(x.live && x.conf == s) T.bad++; }
    int mbedtls_ssl_config_defaults(mbedtls_ssl_config *s, int endpoint, int transport, int preset)
    {
        TlsConf *c = T.conf(s); if(!c) return -1;
        sym_check(transport == MBEDTLS_SSL_TRANSPORT_STREAM && preset == MBEDTLS_SSL_PRESET_DEFAULT, "TLS with the default settings");
        if(int e = T.err("config_defaults")) return e;
        c->defaults = true; c->endpoint = endpoint; c->authmode = endpoint == MBEDTLS_SSL_IS_CLIENT ? MBEDTLS_SSL_VERIFY_REQUIRED : MBEDTLS_SSL_VERIFY_NONE;
        return 0;
    }
    void mbedtls_ssl_conf_authmode(mbedtls_ssl_config *s, int m) { if(TlsConf *c = T.conf(s)) c->authmode = m; }
    void mbedtls_ssl_conf_ca_chain(mbedtls_ssl_config *s, mbedtls_x509_crt *ca, mbedtls_x509_crl *) { if(TlsConf *c = T.conf(s)) c->ca = ca; }
    void mbedtls_ssl_conf_rng(mbedtls_ssl_config *s, int (*f)(void*, unsigned char*, size_t), void *p) { if(TlsConf *c = T.conf(s)) c->rng = f == mbedtls_ctr_drbg_random && p; }
    int mbedtls_ssl_conf_own_cert(mbedtls_ssl_config *s, mbedtls_x509_crt *crt, mbedtls_pk_context *pk) { TlsConf *c = T.conf(s); if(!c) return -1; if(int e = T.err("own_cert")) return e; c->own = crt && pk; return 0; }
    int mbedtls_ssl_setup(mbedtls_ssl_context *s, const mbedtls_ssl_config *conf)
    {
        TlsCtx *c = T.get(s); TlsConf *f = T.conf(conf); if(!c || !f) return -1;
        sym_check(f->defaults && f->rng, "a complete configuration is used");
        if(int e = T.err("setup")) return e;
        c->setup = true; c->conf = conf;
        return 0;
    }
    int mbedtls_ssl_set_hostname(mbedtls_ssl_context *s, const char *h) { TlsCtx *c = T.get(s); if(!c) return -1; if(int e = T.err("set_hostname")) return e; c->has_host = h != nullptr; c->host = h ? h : ""; return 0; }
    void mbedtls_ssl_set_bio(mbedtls_ssl_context *s, void *p, mbedtls_ssl_send_t *snd, mbedtls_ssl_recv_t *rcv, mbedtls_ssl_recv_timeout_t *)
    { if(TlsCtx *c = T.get(s)) { c->bio = p; c->io = snd == mbedtls_net_send && rcv == mbedtls_net_recv; } }
    // errors after which mbed TLS allows to go on (a blocking descriptor which timed out looks like a failed transfer)
    static bool fatal(int e) { return (e != MBEDTLS_ERR_NET_SEND_FAILED) & (e != MBEDTLS_ERR_NET_RECV_FAILED) & (e != MBEDTLS_ERR_SSL_CRYPTO_IN_PROGRESS) & (e != MBEDTLS_ERR_SSL_ASYNC_IN_PROGRESS) & (e != MBEDTLS_ERR_SSL_CLIENT_RECONNECT) & (e != MBEDTLS_ERR_SSL_TIMEOUT); }
    static KFd *frv_bio(TlsCtx *c) { if(!c->bio || !c->io || !c->setup || !T.conf(c->conf)) { T.bad++; return nullptr; } return K.use(((mbedtls_net_context*)c->bio)->fd); }
    int mbedtls_ssl_handshake(mbedtls_ssl_context *s)
    {
        TlsCtx *c = T.get(s); if(!c || !frv_bio(c)) return -1;
        T.handshakes++;
        sym_check(!c->dead, "a failed handshake isn't continued");
        if(T.stalls && sym_choose(2, "handshake stalls")) { T.stalls--; return sym_choose(2, "want") ? MBEDTLS_ERR_SSL_WANT_WRITE : MBEDTLS_ERR_SSL_WANT_READ; }
        if(int e = T.err("handshake")) { c->dead = true; return e; }
        TlsConf *f = T.conf(c->conf);
        c->verify = 0;
        if(f->endpoint == MBEDTLS_SSL_IS_CLIENT)
        {
            if(f->authmode == MBEDTLS_SSL_VERIFY_NONE) c->verify = 0x80;       // MBEDTLS_X509_BADCERT_SKIP_VERIFY
            else
            {
                if(!T.cert_trusted || f->ca != T.trust) { uint32_t why = sym_val<uint32_t>("untrusted"); sym_assume((why != 0) & ((why & ~0x1FFFFu) == 0) & ((why & MBEDTLS_X509_BADCERT_SKIP_VERIFY) == 0)); c->verify |= why; }
                if(c->has_host && (!T.cert_name || c->host != T.cert_host)) c->verify |= MBEDTLS_X509_BADCERT_CN_MISMATCH;
            }
            if(f->authmode == MBEDTLS_SSL_VERIFY_REQUIRED && c->verify) { c->dead = true; return T.last_error = MBEDTLS_ERR_X509_CERT_VERIFY_FAILED; }
        }
        else sym_check(f->own, "a server has a certificate");
        c->shaken = true;
        return 0;
    }
    uint32_t mbedtls_ssl_get_verify_result(const mbedtls_ssl_context *s) { TlsCtx *c = T.get(s); return c ? c->verify : ~0u; }
    int mbedtls_ssl_write(mbedtls_ssl_context *s, const unsigned char *buf, size_t len)
    {
        if(K.none_ok && (!s || !T.get(s) || !T.get(s)->setup)) return MBEDTLS_ERR_SSL_BAD_INPUT_DATA;
        TlsCtx *c = T.get(s); if(!c || !frv_bio(c)) return -1;
        sym_check(c->shaken, "data is only sent after the handshake"); sym_check(!c->dead || K.shut_ends, "a broken session isn't continued");
        sym_check(c->pbuf == nullptr || (c->pbuf == buf && c->plen == len && c->pdata.size() == len && same_bytes(c->pdata.data(), buf, len)), "a stalled write is repeated with the same arguments");
        if(K.shut_ends && frv_bio(c)->shut_wr) { c->dead = true; errno = EPIPE; return T.last_error = MBEDTLS_ERR_NET_CONN_RESET; }
        if(T.would_block == 1) return MBEDTLS_ERR_SSL_WANT_WRITE;
        if(T.would_block == 2) { errno = EAGAIN; return MBEDTLS_ERR_NET_SEND_FAILED; }
        if(T.stalls && sym_choose(2, "write stalls")) { T.stalls--; if(!K.place) { c->pbuf = buf; c->plen = len; c->pdata.assign((const char*)buf, len); } return sym_choose(2, "want") ? MBEDTLS_ERR_SSL_WANT_READ : MBEDTLS_ERR_SSL_WANT_WRITE; }
        if(int e = T.err("write")) { c->dead = fatal(e); if(e == MBEDTLS_ERR_NET_SEND_FAILED) { int n = sym_val<int>("errno"); sym_assume((n > 0) & (n < 134)); errno = n; } return e; }
        c->pbuf = nullptr;
        if(K.place) return (int)K.move(buf, len);
        size_t n = len < 16384 ? len : 16384;       // one record
        if(K.cuts && n > 1) { size_t m = sym_cut(n, "write count"); if(m < n) K.cuts--; n = m; }
        K.tx.append((const char*)buf, n);
        return (int)n;
    }
    int mbedtls_ssl_read(mbedtls_ssl_context *s, unsigned char *buf, size_t len)
    {
        if(K.none_ok && (!s || !T.get(s) || !T.get(s)->setup)) return MBEDTLS_ERR_SSL_BAD_INPUT_DATA;
        TlsCtx *c = T.get(s); if(!c || !frv_bio(c)) return -1;
        sym_check(c->shaken, "data is only received after the handshake"); sym_check(!c->dead || K.shut_ends, "a broken session isn't continued");
        if(K.shut_ends && K.rpos == K.rx.size() && !frv_bio(c)->shut_rd) { frv_bio(c)->stuck = true; errno = EAGAIN; return MBEDTLS_ERR_NET_RECV_FAILED; }    // it would wait for the peer
        if(T.would_block == 1) return MBEDTLS_ERR_SSL_WANT_READ;
        if(T.would_block == 2) { errno = EAGAIN; return MBEDTLS_ERR_NET_RECV_FAILED; }
        if(T.stalls && sym_choose(2, "read stalls")) { T.stalls--; return sym_choose(2, "want") ? MBEDTLS_ERR_SSL_WANT_READ : MBEDTLS_ERR_SSL_WANT_WRITE; }
        if(int e = T.err("read")) { c->dead = fatal(e); if(e == MBEDTLS_ERR_NET_RECV_FAILED) { int n = sym_val<int>("errno"); sym_assume((n > 0) & (n < 134)); errno = n; } return e; }
        if(K.place) return (int)K.move(buf, len);
        size_t n = K.rx.size() - K.rpos;
        if(n > len) n = len;
        if(n > 16384) n = 16384;
        if(K.cuts && n > 1) { size_t m = sym_cut(n, "read count"); if(m < n) K.cuts--; n = m; }
        memcpy(buf, K.rx.data() + K.rpos, n); K.rpos += n;
        return (int)n;
    }
    void mbedtls_x509_crt_init(mbedtls_x509_crt *c) { memset(c, 0, sizeof *c); T.crts++; }
    void mbedtls_x509_crt_free(mbedtls_x509_crt *) { T.crts--; }
    int mbedtls_x509_crt_parse_file(mbedtls_x509_crt *c, const char *p)
    {
        T.parsed_into = c; T.crt_path = p; T.parses++; T.parse_result = 0;
        if(K.faults && sym_choose(2, "some certificates are bad")) { K.faults--; T.parse_result = sym_val<int>("bad certificates"); sym_assume(T.parse_result > 0); return T.parse_result; }
        return T.parse_result = T.err("crt_parse_file");
    }
    // PEM data has to be terminated by a null byte, which is counted; everything else is taken for DER data
    int mbedtls_x509_crt_parse(mbedtls_x509_crt *c, const unsigned char *p, size_t n)
    {
        T.parsed_into = c; T.parsed.assign((const char*)p, n); T.parses++;
        bool pem = n && p[n - 1] == 0 && strstr((const char*)p, "-----BEGIN CERTIFICATE-----");
        if(!pem && !(n && p[0] == 0x30)) return T.parse_result = MBEDTLS_ERR_X509_INVALID_FORMAT;
        if(pem && K.faults && sym_choose(2, "some certificates are bad")) { K.faults--; T.parse_result = sym_val<int>("bad certificates"); sym_assume(T.parse_result > 0); return T.parse_result; }
        return T.parse_result = T.err("crt_parse");
    }
    void mbedtls_pk_init(mbedtls_pk_context *p) { memset(p, 0, sizeof *p); T.pks++; }
    void mbedtls_pk_free(mbedtls_pk_context *) { T.pks--; }
    int mbedtls_pk_parse_keyfile(mbedtls_pk_context *, const char *p, const char *) { T.key_path = p; return T.err("pk_parse"); }
    void mbedtls_ctr_drbg_init(mbedtls_ctr_drbg_context *) { T.drbgs++; }
    void mbedtls_ctr_drbg_free(mbedtls_ctr_drbg_context *) { T.drbgs--; }
    int mbedtls_ctr_drbg_random(void *, unsigned char *, size_t) { sym_kill(); }
    int mbedtls_entropy_func(void *, unsigned char *, size_t) { sym_kill(); }
    int mbedtls_ctr_drbg_seed(mbedtls_ctr_drbg_context *c, int (*f)(void*, unsigned char*, size_t), void *p, const unsigned char *, size_t) { T.seeded = c; T.seeder = f == mbedtls_entropy_func ? p : nullptr; return T.err("seed"); }
    void mbedtls_entropy_init(mbedtls_entropy_context *) { T.entropies++; }
    void mbedtls_entropy_free(mbedtls_entropy_context *) { T.entropies--; }
    void mbedtls_strerror(int e, char *b, size_t n) { K.said = Kernel::TLS; K.said_code = e; if(n > 3) memcpy(b, "why", 4); }
}
