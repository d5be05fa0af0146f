// A model of the kernel's sockets: a descriptor table, and for every system call a result which is chosen
// symbolically within its documented contract (any errno, any short count, failures within a budget).
// The same definitions replace the C library's in the native replay.
#pragma once
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/epoll.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <netdb.h>
#include <poll.h>
#include <fcntl.h>
#include <csignal>
#include <cerrno>
#include <cstring>
#include <string>
#include <memory>
#include <stdexcept>
#include "sym.h"
struct KFd
{
    bool open, nonblock, connecting, connected, bound, listening, shut, shut_rd, shut_wr, stuck, nodelay, reuseaddr, reuseport, epoll;
    int family;
    bool rcvset, sndset; timeval rcvto, sndto;
    int origin;                 // which address it was connected to
    int v6only;                 // -1: never set
};
struct Kernel
{
#ifndef KERNEL_MAX
#define KERNEL_MAX 24
#endif
    static const int MAX = KERNEL_MAX;
    int base = 3;
    KFd fd[MAX];
    unsigned faults = 0;        // how many calls may still fail
    bool any_errno = true;
    bool trouble = false;       // something has failed
    int cause = 0, gai = 0;                                         // what the last failing call said
    enum { NOTHING, ERRNO, GAI, TLS } said = NOTHING; int said_code = 0;  // what has been turned into text
    unsigned naddr = 1;         // getaddrinfo results
    int family[4];
    addrinfo ai[4]; sockaddr_storage sa[4];
    int ai_live = 0, ai_frees = 0;
    int hint_family = -1; int hint_flags = 0, hint_socktype = 0; std::string node, service; bool node_null = false;
    bool none_ok = false;       // calls on -1, which is nobody's, are fine
    unsigned bad = 0;           // system calls on descriptors which aren't open
    unsigned closes = 0, opened = 0;
    bool sigpipe_ignored = false;
    int poll_timeout = -2; unsigned polls = 0, blocking_connects = 0;
    // data transfer
    std::string rx, tx; size_t rpos = 0;
    unsigned cuts = 0;          // short counts
    unsigned eintr = 0;
    bool would_block = false;   // nothing there, no room
    bool any_events = false;    // and with which events is symbolic
    bool all_ready = false;     // epoll_wait returns every registered descriptor
    bool nameinfo_ok = true; std::string peer = "192.0.2.7", peer6 = "2001:db8:1111:2222:3333:4444:5555:6666";
    unsigned listens = 0; int backlog = 0;
    // transfers of which only the place and the size are looked at
    const char *place = nullptr; uint64_t size = 0, moved = 0, most = 0x7ffff000;      // most: what Linux transfers at once
    unsigned moves = 0, max_moves = 0;
    ssize_t move(const void *buf, size_t len)
    {
        sym_check((uintptr_t)buf == (uintptr_t)place + moved, "the bytes go behind the ones which are already there");
        sym_check((len >= 1) & (len <= size - moved), "something is transferred, and no more than there is room for");
        bool all = moves >= max_moves || sym_choose(2, "everything");
        moves++;
        if(all) { sym_assume(len <= most); moved += len; return (ssize_t)len; }
        uint64_t m = sym_val<uint64_t>("count");
        sym_assume((m >= 1) & (m <= len) & (m <= most));
        moved += m;
        return (ssize_t)m;
    }
    // epoll: the interest list of the (only) epoll descriptor
    struct Reg { bool on; uint32_t events; epoll_data_t data; uint64_t tag; } reg[MAX];
    int epfd = -1; unsigned waits = 0; int wait_timeout = -2; int wait_max = 0; int nready = 0; int ready[MAX];

    // who has connected to a listener
    const std::string &peer_text(const KFd *f) const { return f->family == AF_INET6 ? peer6 : peer; }
    static size_t peer_address(int fam, sockaddr_storage &st)
    {
        memset(&st, 0, sizeof st); st.ss_family = (sa_family_t)fam;
        unsigned char *b = (unsigned char*)&st;
        if(fam == AF_INET6) { static const unsigned char a[] = {0x20, 1, 0xd, 0xb8, 0x11, 0x11, 0x22, 0x22, 0x33, 0x33, 0x44, 0x44, 0x55, 0x55, 0x66, 0x66}; memcpy(b + 8, a, 16); return sizeof(sockaddr_in6); }
        static const unsigned char a[] = {192, 0, 2, 7}; memcpy(b + 4, a, 4); return sizeof(sockaddr_in);
    }
    static void give_address(int fam, sockaddr *sa, socklen_t *len) { sockaddr_storage st; size_t n = peer_address(fam, st); memcpy(sa, &st, n < *len ? n : *len); *len = (socklen_t)n; }
    int live() const { int n = 0; for(int i = 0; i < MAX; i++) n += fd[i].open; return n; }
    KFd *get(int d) { if(d < base || d >= base + MAX || !fd[d - base].open) return nullptr; return &fd[d - base]; }
    KFd *use(int d) { KFd *f = get(d); if(!f) { if(d != -1 || !none_ok) bad++; errno = EBADF; } return f; }
    int alloc(int fam)
    {
        for(int i = 0; i < MAX; i++) if(!fd[i].open) { memset(&fd[i], 0, sizeof(KFd)); fd[i].open = true; fd[i].family = fam; fd[i].origin = -1; fd[i].v6only = -1; opened++; return base + i; }
        sym_kill();
    }
    // a descriptor is gone whatever close() says; whether it reports an error doesn't split the path
    bool close_fails = false;
    bool shut_ends = false;     // what has been shut down doesn't transfer or accept anything any more
    int closed() { if(!close_fails) return 0; int r = -(int)(sym_val<uint8_t>("close fails") & 1); errno ^= (errno ^ EIO) & r; return r; }
    bool fail(const char *what) { if(!faults) return false; if(!sym_choose(2, what)) return false; faults--; set_errno(); return true; }
    int set_errno()
    {
        trouble = true;
        int e = EIO;
        if(any_errno) { e = sym_val<int>("errno"); sym_assume((e > 0) & (e < 134)); }
        errno = cause = e;
        return e;
    }
};
#ifdef FRV_THREADS
static Kernel frv_kernels[3]; static thread_local Kernel *frv_kernel = &frv_kernels[0];      // every thread has one of its own
#define K (*frv_kernel)
#else
static Kernel K;
#endif
static inline void kernel_init() { memset(K.fd, 0, sizeof K.fd); memset(K.reg, 0, sizeof K.reg); static const int bases[] = {3, 0, 1030}; K.base = bases[sym_choose(sym_param("BASES", 3), "first descriptor")]; }
extern "C"
{
    int socket(int fam, int type, int) throw() { if(K.fail("socket")) return -1; sym_check((type & 0xf) == SOCK_STREAM, "a stream socket is created"); int d = K.alloc(fam); if(type & SOCK_NONBLOCK) K.get(d)->nonblock = true; return d; }
    int close(int d) { KFd *f = K.use(d); if(!f) return -1; f->open = false; K.closes++; K.reg[d - K.base].on = false; if(d == K.epfd) { K.epfd = -1; for(auto &r : K.reg) r.on = false; } return K.closed(); }
    // a connection which the peer has reset can't be shut down any more
    int shutdown(int d, int how) throw() { KFd *f = K.use(d); if(!f) return -1; f->shut = true; f->shut_rd |= how != SHUT_WR; f->shut_wr |= how != SHUT_RD; if(!f->listening && K.trouble) { errno = ENOTCONN; return -1; } return 0; }
    int frv_fcntl(int d, int cmd, long arg) __asm__("fcntl");
    int frv_fcntl(int d, int cmd, long arg)
    {
        KFd *f = K.use(d); if(!f) return -1;
        if(K.fail("fcntl")) return -1;
        if(cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
        if(cmd == F_SETFL) { f->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
        return 0;
    }
    int frv_ioctl(int d, unsigned long cmd, int *arg) __asm__("ioctl");
    int frv_ioctl(int d, unsigned long cmd, int *arg)
    {
        KFd *f = K.use(d); if(!f) return -1;
        if(K.fail("ioctl")) return -1;
        if(cmd == 0x5421) f->nonblock = *arg != 0;      // FIONBIO
        return 0;
    }
    int connect(int d, const sockaddr *sa, socklen_t)
    {
        KFd *f = K.use(d); if(!f) return -1;
        for(unsigned i = 0; i < K.naddr; i++) if((const void*)sa == (const void*)&K.sa[i]) f->origin = (int)i;
        sym_check(f->origin >= 0 && K.family[f->origin] == f->family, "an address is only used with a socket of its family");
        if(!f->nonblock) K.blocking_connects++;
        if(!K.faults) { f->connected = true; return 0; }
        switch(sym_choose(3, "connect"))
        {
            case 0: f->connected = true; return 0;
            case 1: errno = EINPROGRESS; f->connecting = true; return -1;
            default: { K.faults--; int e = K.set_errno(); sym_assume(e != EINPROGRESS); return -1; }
        }
    }
    static int frv_wait(KFd *f)
    {
        // the connection is established, refused, or neither in time
        if(!K.faults) { f->connecting = false; f->connected = true; return 1; }
        switch(sym_choose(4, "wait"))
        {
            case 0: f->connecting = false; f->connected = true; return 1;
            case 1: K.faults--; f->connecting = false; return 1;
            case 2: K.faults--; return 0;
            default: K.faults--; K.set_errno(); return -1;
        }
    }
    int poll(pollfd *p, nfds_t n, int timeout)
    {
        sym_check(n == 1, "one descriptor is polled");
        K.poll_timeout = timeout; K.polls++;
        KFd *f = K.use(p->fd); if(!f) { p->revents = POLLNVAL; return 1; }
        int r = frv_wait(f);
        p->revents = r > 0 ? (f->connected ? POLLOUT & p->events : (POLLOUT & p->events) | POLLERR | POLLHUP) : 0;
        return r > 0 && !p->revents ? 0 : r;    // only what was asked for, and errors, end the wait
    }
    int ppoll(pollfd *p, nfds_t n, const timespec *t, const sigset_t *) { return poll(p, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
    int select(int n, fd_set *rd, fd_set *wr, fd_set *, timeval *tv)
    {
        K.polls++;
        sym_check(n - 1 < FD_SETSIZE, "select() only works for small descriptors");
        K.poll_timeout = tv ? (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000) : -1;
        KFd *f = K.use(n - 1); if(!f) return -1;
        int r = frv_wait(f);
        if(r > 0 && f->connected && (!wr || !FD_ISSET(n - 1, wr))) r = 0;
        if(r <= 0) { if(wr) FD_ZERO(wr); if(rd) FD_ZERO(rd); }
        return r;
    }
    int getsockopt(int d, int level, int opt, void *v, socklen_t *len) throw()
    {
        KFd *f = K.use(d); if(!f) return -1;
        sym_check(level == SOL_SOCKET && opt == SO_ERROR && *len == sizeof(int), "only SO_ERROR is read");
        if(K.fail("getsockopt")) return -1;
        int e = 0;
        // a connection which is still being established has no error yet
        if(!f->connected && !f->connecting) { e = sym_val<int>("so_error"); sym_assume((e > 0) & (e < 134)); }
        memcpy(v, &e, sizeof e);
        return 0;
    }
    int setsockopt(int d, int level, int opt, const void *v, socklen_t len) throw()
    {
        KFd *f = K.use(d); if(!f) return -1;
        if(K.fail("setsockopt")) return -1;
        if(level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO))
        {
            timeval tv; sym_check(len == sizeof tv, "a timeout is a timeval"); memcpy(&tv, v, sizeof tv);
            sym_check((tv.tv_usec >= 0) & (tv.tv_usec < 1000000), "a timeval is normalised");
            (opt == SO_RCVTIMEO ? f->rcvto : f->sndto) = tv; (opt == SO_RCVTIMEO ? f->rcvset : f->sndset) = true;
        }
        int i = 0; if(len == sizeof(int)) memcpy(&i, v, sizeof i);
        if(level == SOL_TCP && opt == TCP_NODELAY) f->nodelay = i != 0;
        if(level == IPPROTO_IPV6 && opt == IPV6_V6ONLY) f->v6only = i != 0;
        if(level == SOL_SOCKET && opt == SO_REUSEADDR) f->reuseaddr = i != 0;
        if(level == SOL_SOCKET && opt == SO_REUSEPORT) f->reuseport = i != 0;
        return 0;
    }
    int bind(int d, const sockaddr *sa, socklen_t) throw()
    {
        KFd *f = K.use(d); if(!f) return -1;
        for(unsigned i = 0; i < K.naddr; i++) if((const void*)sa == (const void*)&K.sa[i]) f->origin = (int)i;
        sym_check(f->origin >= 0 && K.family[f->origin] == f->family, "an address is only used with a socket of its family");
        if(K.fail("bind")) return -1;
        f->bound = true; return 0;
    }
    int listen(int d, int backlog) throw() { KFd *f = K.use(d); if(!f) return -1; if(K.fail("listen")) return -1; sym_check(f->bound, "a bound socket listens"); f->listening = true; K.listens++; K.backlog = backlog; return 0; }
    int accept(int d, sockaddr *sa, socklen_t *len)
    {
        KFd *f = K.use(d); if(!f) return -1;
        sym_check(f->listening, "accept on a listening socket");
        if(K.shut_ends && f->shut_rd) { errno = EINVAL; return -1; }
        if(K.fail("accept")) return -1;
        int n = K.alloc(f->family); K.get(n)->connected = true; K.get(n)->origin = 100;
        if(sa) Kernel::give_address(f->family, sa, len);
        return n;
    }
    int accept4(int d, sockaddr *sa, socklen_t *len, int flags) { int n = accept(d, sa, len); if(n >= 0 && (flags & SOCK_NONBLOCK)) K.get(n)->nonblock = true; return n; }
    int getpeername(int d, sockaddr *sa, socklen_t *len) throw()
    {
        KFd *f = K.use(d); if(!f) return -1;
        if(K.fail("getpeername")) return -1;
        Kernel::give_address(f->family, sa, len);
        return 0;
    }
    int getnameinfo(const sockaddr *sa, socklen_t sl, char *host, socklen_t hl, char *, socklen_t, int flags)
    {
        sym_check(flags & NI_NUMERICHOST, "a peer's address is numeric");
        if(K.fail("getnameinfo")) return EAI_FAIL;
        if(sl < sizeof(sa_family_t) || (sa->sa_family != AF_INET && sa->sa_family != AF_INET6)) return EAI_FAMILY;
        sockaddr_storage st; size_t n = Kernel::peer_address(sa->sa_family, st);
        if(sl < n) return EAI_FAMILY;
        const std::string &text = sa->sa_family == AF_INET6 ? K.peer6 : K.peer;
        if(hl <= text.size()) return EAI_OVERFLOW;
        if(memcmp(&st, sa, n) == 0) memcpy(host, text.c_str(), text.size() + 1);
        else memcpy(host, "?", 2);
        return 0;
    }
    int getaddrinfo(const char *node, const char *service, const addrinfo *hints, addrinfo **res)
    {
        K.node_null = !node; K.node = node ? node : ""; K.service = service ? service : "";
        static addrinfo none; if(!hints) hints = &none;
        K.hint_family = hints->ai_family; K.hint_flags = hints->ai_flags; K.hint_socktype = hints->ai_socktype;
        if(K.faults && sym_choose(2, "getaddrinfo")) { K.faults--; int e = sym_val<int>("gai_error"); sym_assume((e < 0) & (e > -120)); K.gai = e; if(e == EAI_SYSTEM) K.set_errno(); return e; }
        memset(K.ai, 0, sizeof K.ai); memset(K.sa, 0, sizeof K.sa);
        for(unsigned i = 0; i < K.naddr; i++)
        {
            K.family[i] = hints->ai_family != AF_UNSPEC ? hints->ai_family : (sym_choose(2, "family") ? AF_INET6 : AF_INET);
            K.ai[i].ai_family = K.family[i]; K.ai[i].ai_socktype = SOCK_STREAM; K.ai[i].ai_protocol = IPPROTO_TCP;
            K.ai[i].ai_addr = (sockaddr*)&K.sa[i]; K.ai[i].ai_addrlen = K.family[i] == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
            K.ai[i].ai_next = i + 1 < K.naddr ? &K.ai[i + 1] : nullptr;
        }
        *res = K.ai; K.ai_live++;
        return 0;
    }
    void freeaddrinfo(addrinfo *a) throw() { sym_check(a == K.ai, "what getaddrinfo returned is freed"); sym_check(K.ai_live == 1, "and only once"); K.ai_live--; K.ai_frees++; }
    const char *gai_strerror(int e) throw() { K.said = Kernel::GAI; K.said_code = e; return "why"; }
    char *strerror(int e) throw() { K.said = Kernel::ERRNO; K.said_code = e; return (char*)"why"; }
    __sighandler_t signal(int sig, __sighandler_t h) throw() { if(sig == SIGPIPE) K.sigpipe_ignored = h == SIG_IGN; return SIG_DFL; }
    ssize_t send(int d, const void *buf, size_t len, int flags)
    {
        sym_check(K.sigpipe_ignored || (flags & MSG_NOSIGNAL), "a broken connection doesn't raise a signal");
        KFd *f = K.use(d); if(!f) return -1;
        if(K.shut_ends && f->shut_wr) { errno = EPIPE; return -1; }
        if(K.would_block) { errno = EAGAIN; return -1; }
        if(K.eintr && sym_choose(2, "send interrupted")) { K.eintr--; errno = EINTR; return -1; }
        if(K.fail("send")) { sym_assume(errno != EINTR); return -1; }
        if(K.place) return K.move(buf, len);
        size_t n = len;
        if(K.cuts && len > 1) { n = sym_cut(len, "send count"); if(n < len) K.cuts--; }
        K.tx.append((const char*)buf, n);
        return (ssize_t)n;
    }
    ssize_t recv(int d, void *buf, size_t len, int flags)
    {
        KFd *f = K.use(d); if(!f) return -1;
        if(K.shut_ends && !f->shut_rd && K.rpos == K.rx.size()) { f->stuck = true; errno = EAGAIN; return -1; }    // it would wait for the peer
        if(K.would_block || ((flags & MSG_DONTWAIT) && sym_choose(2, "nothing there"))) { errno = EAGAIN; return -1; }
        if(K.eintr && sym_choose(2, "recv interrupted")) { K.eintr--; errno = EINTR; return -1; }
        if(K.fail("recv")) { sym_assume(errno != EINTR); return -1; }
        if(K.place) return K.move(buf, len);
        size_t n = K.rx.size() - K.rpos;
        if(n > len) n = len;
        sym_check(!(flags & MSG_WAITALL) || n == len || !n, "what is there is received, without waiting for more");
        if(K.cuts && n > 1) { size_t m = sym_cut(n, "recv count"); if(m < n) K.cuts--; n = m; }
        memcpy(buf, K.rx.data() + K.rpos, n); if(!(flags & MSG_PEEK)) K.rpos += n;
        return (ssize_t)n;
    }
    ssize_t read(int d, void *buf, size_t len) { return recv(d, buf, len, 0); }
    ssize_t write(int d, const void *buf, size_t len) { return send(d, buf, len, 0); }
    ssize_t sendto(int d, const void *buf, size_t len, int flags, const sockaddr *, socklen_t) { return send(d, buf, len, flags); }
    ssize_t recvfrom(int d, void *buf, size_t len, int flags, sockaddr *, socklen_t *) { return recv(d, buf, len, flags); }
    int epoll_create1(int) throw() { if(K.fail("epoll_create1")) return -1; int d = K.alloc(0); K.get(d)->epoll = true; K.epfd = d; return d; }
    int epoll_create(int) throw() { return epoll_create1(0); }
    int epoll_ctl(int ep, int op, int d, epoll_event *ev) throw()
    {
        if(!K.use(ep)) return -1;
        sym_check(ep == K.epfd, "the epoll descriptor is used");
        KFd *f = K.get(d); if(!f) { errno = EBADF; return -1; }
        Kernel::Reg &r = K.reg[d - K.base];
        if(op == EPOLL_CTL_DEL ? !r.on : op == EPOLL_CTL_MOD ? !r.on : r.on) { errno = op == EPOLL_CTL_ADD ? EEXIST : ENOENT; return -1; }
        if(op == EPOLL_CTL_DEL) { r.on = false; return 0; }
        if(op == EPOLL_CTL_ADD && K.faults && sym_choose(2, "epoll_ctl")) { K.faults--; K.set_errno(); return -1; }
        r.on = true; r.events = ev->events; r.data = ev->data;
        return 0;
    }
    // any of the registered descriptors may be ready
    int epoll_wait(int ep, epoll_event *ev, int max, int timeout)
    {
        K.waits++; K.wait_timeout = timeout; K.wait_max = max; K.nready = 0;
        if(!K.use(ep)) return -1;
        sym_check(ep == K.epfd && max > 0, "the epoll descriptor is used");
        if(K.fail("epoll_wait")) return -1;
        int n = 0;
        for(int i = 0; i < Kernel::MAX && n < max; i++)
            if(K.reg[i].on && (K.all_ready || sym_choose(2, "ready"))) { ev[n].events = EPOLLIN; if(K.any_events) { uint32_t e = sym_val<uint32_t>("events"); sym_assume((e != 0) & ((e & ~(uint32_t)(EPOLLIN | EPOLLHUP | EPOLLERR | EPOLLRDHUP)) == 0) & (((e & EPOLLRDHUP) == 0) | ((e & EPOLLIN) != 0))); ev[n].events = e; } ev[n].data = K.reg[i].data; n++; K.ready[K.nready++] = K.base + i; }
        return n;
    }
}
