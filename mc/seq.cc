#include "seq.h"
#include <errno.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <termios.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <linux/futex.h>
#include <linux/sockios.h>
#include <sched.h>

// something the explorer itself needs from the system went wrong: not to be mistaken for a crash of the library
[[noreturn]] static void env_abort(int line) { fprintf(stderr, "environment failed at line %d: %s\n", line, strerror(errno)); _exit(43); }
#define abort() env_abort(__LINE__)
// every exploring process has a loopback address of its own: nobody else answers on, or reuses, its ports
static uint32_t own_addr()
{
    static uint32_t a;
    static pid_t who;
    if (who != getpid()) {
        who = getpid();
        struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET;
        a = htonl(127u << 24 | ((who >> 16 & 63) + 1) << 16 | (who & 0xffff)); s.sin_addr.s_addr = a;
        int f = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
        if (f < 0 || bind(f, (struct sockaddr *)&s, sizeof s)) a = htonl(INADDR_LOOPBACK);
        close(f);
    }
    return a;
}

std::string fmt(const char *f, ...)
{
    char b[2048];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}
void fail(const char *f, ...)
{
    char b[2048];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    throw Fail(b);
}
const char *filt_name(int f)
{
    switch (f) {
    case EVFILT_READ: return "READ"; case EVFILT_WRITE: return "WRITE"; case EVFILT_VNODE: return "VNODE"; case EVFILT_PROC: return "PROC";
    case EVFILT_SIGNAL: return "SIGNAL"; case EVFILT_TIMER: return "TIMER"; case EVFILT_USER: return "USER"; case EVFILT_LIBKQUEUE: return "LIBKQUEUE";
    }
    return "?";
}
std::string kev_str(const struct kevent &k)
{
    return fmt("{ident=%#lx %s flags=%#x fflags=%#x data=%ld udata=%p}", (unsigned long)k.ident, filt_name(k.filter), k.flags, k.fflags, (long)k.data, k.udata);
}
static bool poll1(int fd, short ev) { struct pollfd p = { fd, ev, 0 }; return poll(&p, 1, 0) > 0; }

// ================================================================ objects
// amounts that do not fit in 8, 15 or 16 bits
static void add_bulk(std::vector<Op> &ops, std::string nm, std::function<int *()> q, std::function<int()> rfd, std::function<int()> wfd, std::function<void()> note)
{
    static char buf[70000];
    for (int n : { 256, 40000, 65536 })
        ops.push_back({ fmt("%s.put%d", nm.c_str(), n), [=] { return q() && *q() < n; }, [=] { if (::write(wfd(), buf, n) != n) abort(); *q() += n; note(); } });
    ops.push_back({ nm + ".getall", [=] { return q() && *q() > 0; }, [=] { while (*q() > 0) { long r = ::read(rfd(), buf, sizeof buf); if (r <= 0) abort(); *q() -= r; } } });
}
struct PipeObj : Obj {
    int p[2]; int queued; bool wclosed, rclosed, full; bool fifo; std::string path; int mask = 255;   // 256: large amounts, read end only
    void setup() override
    {
        if (fifo) {
            path = scratch_dir() + "/" + name;
            unlink(path.c_str());
            mkfifo(path.c_str(), 0600);
            p[0] = open(path.c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC);
            p[1] = open(path.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC);
        } else if (pipe2(p, O_CLOEXEC | O_NONBLOCK)) abort();
        fcntl(p[1], F_SETPIPE_SZ, mask & 256 ? 1 << 20 : 4096);
        place(p[0]);
        queued = 0; wclosed = rclosed = full = false;
    }
    void teardown() override { if (!rclosed) close(p[0]); if (!wclosed) close(p[1]); rclosed = wclosed = true; if (fifo) unlink(path.c_str()); }
    void hash(Hash &h) override { h.add(queued); h.add(wclosed | rclosed << 1 | full << 2); }
    int fd(int s) override { return p[s]; }
    bool rd_ready(int) override { return queued > 0 || wclosed; }
    bool rd_eof(int) override { return wclosed; }
    long rd_data(int) override { return queued; }
    bool wr_ready(int) override { return rclosed || queued == 0; }   // one page: writable only when empty
    bool wr_eof(int) override { return rclosed; }
    void add_ops(std::vector<Op> &ops) override
    {
        if (mask & 256) add_bulk(ops, name, [=] { return !wclosed && !rclosed ? &queued : nullptr; }, [=] { return p[0]; }, [=] { return p[1]; }, [=] { w->notify_rd(this, 0); });
        if (mask & 1) ops.push_back({ name + ".write", [=] { return !wclosed && !rclosed && queued < 2; }, [=] {
            char c[2] = { 'x', 'y' }; int n = queued ? 2 : 1; if (::write(p[1], c, n) != n) abort(); queued += n; w->notify_rd(this, 0); } });
        if (mask & 2) ops.push_back({ name + ".read", [=] { return queued > 0 && !rclosed; }, [=] {
            char b[4096]; int n = queued > 4 ? 4096 : 1; long r = ::read(p[0], b, n); if (r <= 0) abort(); queued -= r; if (queued == 0) { full = false; w->notify_wr(this, 1, true); } } });
        if (mask & 4) ops.push_back({ name + ".closew", [=] { return !wclosed; }, [=] { close(p[1]); wclosed = true; w->notify_rd(this, 0); } });
        if (mask & 8) ops.push_back({ name + ".fill", [=] { return !wclosed && !rclosed && queued == 0; }, [=] {
            static char b[4096]; long r = ::write(p[1], b, 4096); if (r != 4096) abort(); queued = 4096; full = true; w->notify_rd(this, 0); } });
        if (mask & 16) ops.push_back({ name + ".closer", [=] { return !rclosed; }, [=] { close(p[0]); rclosed = true; w->notify_wr(this, 1, true); } });
        // a FIFO gets a new writer (reader) after the last one has gone: the end of file (broken pipe) is over
        if (mask & 2048) ops.push_back({ name + ".openw", [=] { return wclosed && !rclosed; }, [=] { p[1] = open(path.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC); if (p[1] < 0) abort(); wclosed = false; w->notify_rd_may(this, 0); } });
        if (mask & 4096) ops.push_back({ name + ".openr", [=] { return rclosed && !wclosed; }, [=] { p[0] = open(path.c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC); if (p[0] < 0) abort(); rclosed = false; w->notify_wr(this, 1, false); } });
    }
};
struct SockObj : Obj {
    int p[2]; int type; int queued; bool pclosed, pshut, full; std::vector<int> dg; int mask = 255; int err; int out;
    int *sockerr() override { return &err; }
    void setup() override
    {
        if (socketpair(AF_UNIX, type | SOCK_CLOEXEC | SOCK_NONBLOCK, 0, p)) abort();
        place(p[0]);
        int sz = 4608;
        if (!(mask & 512)) setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
        if (mask & 1024) { struct stat sb; if (fstat(p[0], &sb)) abort(); rt::filtered_ino = sb.st_ino; }
        out = 0;
        queued = 0; pclosed = pshut = full = false; dg.clear(); err = 0;
    }
    void teardown() override { close(p[0]); if (!pclosed) close(p[1]); }
    void hash(Hash &h) override { h.add(queued); h.add(pclosed | pshut << 1 | full << 2 | (err != 0) << 3); h.add(out); h.add(dg.size()); if (!dg.empty()) h.add(dg[0]); }
    int fd(int) override { return p[0]; }
    bool rd_ready(int) override { return queued > 0 || !dg.empty() || (pclosed && type != SOCK_DGRAM) || pshut; }
    bool rd_eof(int) override { return pclosed || pshut; }
    long rd_data(int) override { return type != SOCK_DGRAM ? queued : dg.empty() ? 0 : dg[0]; }
    bool wr_ready(int) override { return poll1(p[0], POLLOUT | POLLERR | POLLHUP); }
    bool wr_eof(int) override { return pclosed; }
    bool is_listen() override { return mask & 1024; }         // with a packet filter only the presence of data is reported
    void add_ops(std::vector<Op> &ops) override
    {
        if (mask & 256) add_bulk(ops, name, [=] { return !pclosed && !pshut ? &queued : nullptr; }, [=] { return p[0]; }, [=] { return p[1]; }, [=] { w->notify_rd(this, 0); });
        if (mask & 1) ops.push_back({ name + ".pwrite", [=] { return !pclosed && !pshut && queued < 3; }, [=] {
            char c[4] = "abc"; int n = queued ? 2 : 1; if (::write(p[1], c, n) != n) abort(); queued += n; if (type != SOCK_STREAM) dg.push_back(n); w->notify_rd(this, 0); } });
        if (mask & 128) ops.push_back({ name + ".pempty", [=] { return !pclosed && !pshut && dg.size() < 2; }, [=] { if (::send(p[1], "", 0, 0) != 0) abort(); dg.push_back(0); w->notify_rd(this, 0); } });
        if (mask & 2) ops.push_back({ name + ".read", [=] { return queued > 0 || !dg.empty(); }, [=] {
            char b[64]; long r = ::read(p[0], b, type == SOCK_STREAM ? 1 : 64); if (r < 0) abort(); queued -= r; if (type != SOCK_STREAM) dg.erase(dg.begin()); } });
        if ((mask & 4) && type != SOCK_DGRAM) ops.push_back({ name + ".pshut", [=] { return !pclosed && !pshut; }, [=] { shutdown(p[1], SHUT_WR); pshut = true; w->notify_rd(this, 0); } });
        if ((mask & 8) && type != SOCK_DGRAM) ops.push_back({ name + ".pclose", [=] { return !pclosed; }, [=] { close(p[1]); pclosed = true; if (full || out) err = ECONNRESET; w->notify_rd(this, 0); w->notify_wr(this, 0, true); } });
        if (mask & 16) ops.push_back({ name + ".fill", [=] { return !pclosed && !full; }, [=] { static char b[2048]; while (::write(p[0], b, 2048) > 0); full = true; } });
        if (mask & 32) ops.push_back({ name + ".drain", [=] { return !pclosed && full; }, [=] { static char b[65536]; while (::read(p[1], b, sizeof b) > 0); full = false; w->notify_wr(this, 0, true); } });
        if (mask & 512) {       // large amounts in the output queue
            for (int n : { 200, 20000, 33000 }) ops.push_back({ fmt("%s.out%d", name.c_str(), n), [=] { return !pclosed && out < n; }, [=] { static char b[33000]; if (::write(p[0], b, n) != n) abort(); out += n; w->notify_wr(this, 0, false); } });
            ops.push_back({ name + ".in", [=] { return !pclosed && out > 0; }, [=] { static char b[65536]; while (out > 0) { long r = ::read(p[1], b, sizeof b); if (r <= 0) abort(); out -= r; } w->notify_wr(this, 0, false); } });
        }
        if (mask & 64) ops.push_back({ name + ".send", [=] { return !pclosed && !full; }, [=] { char c = 'z'; if (::write(p[0], &c, 1) == 1) { static char b[64]; if (::read(p[1], b, 64) < 0) abort(); } w->notify_wr(this, 0, false); } });
    }
};
struct ListenObj : Obj {
    int l; struct sockaddr_un a; socklen_t al; std::vector<int> pend, acc;
    void setup() override
    {
        l = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
        memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
        snprintf(a.sun_path + 1, 80, "kqmc-%d-%s", getpid(), name.c_str());
        al = sizeof(sa_family_t) + 1 + strlen(a.sun_path + 1);
        if (bind(l, (struct sockaddr *)&a, al) || listen(l, 8)) abort();
        pend.clear(); acc.clear();
    }
    void teardown() override { for (int c : pend) close(c); for (int c : acc) close(c); close(l); }
    void hash(Hash &h) override { h.add(pend.size()); }
    int fd(int) override { return l; }
    bool is_listen() override { return true; }
    bool rd_ready(int) override { return !pend.empty(); }
    void add_ops(std::vector<Op> &ops) override
    {
        ops.push_back({ name + ".connect", [=] { return pend.size() < 2; }, [=] {
            int c = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); if (connect(c, (struct sockaddr *)&a, al)) abort(); pend.push_back(c); w->notify_rd(this, 0); } });
        ops.push_back({ name + ".accept", [=] { return !pend.empty(); }, [=] {
            int c = accept4(l, nullptr, nullptr, SOCK_CLOEXEC); if (c < 0) abort(); acc.push_back(c); acc.push_back(pend[0]); pend.erase(pend.begin()); } });
    }
};
// a TCP connection over the loopback interface; every action waits until the other end has seen it
struct TcpObj : Obj {
    int p[2]; int l = -1; bool pclosed, pshut, rst, full; int queued; int mask = 15; int err; int urg;
    int *sockerr() override { return &err; }
    static void until(int fd, short ev) { struct pollfd x = { fd, ev, 0 }; if (poll(&x, 1, 20000) != 1) { errno = ETIMEDOUT; abort(); } }
    void setup() override
    {
        struct sockaddr_in a; socklen_t al = sizeof a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = own_addr();
        int ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (bind(ls, (struct sockaddr *)&a, sizeof a) || listen(ls, 4) || getsockname(ls, (struct sockaddr *)&a, &al)) abort();
        p[0] = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        int sz = 4608; setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
        if (connect(p[0], (struct sockaddr *)&a, sizeof a)) abort();
        p[1] = accept4(ls, nullptr, nullptr, SOCK_CLOEXEC);
        if (p[1] < 0) abort();
        int one = 1; setsockopt(p[1], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        fcntl(p[0], F_SETFL, O_NONBLOCK);
        struct linger lg = { 1, 0 }; setsockopt(p[0], SOL_SOCKET, SO_LINGER, &lg, sizeof lg);      // no TIME_WAIT
        close(ls);
        pclosed = pshut = rst = full = false; queued = 0; err = 0; urg = 0;
    }
    void teardown() override { if (!pclosed) { struct linger lg = { 1, 0 }; setsockopt(p[1], SOL_SOCKET, SO_LINGER, &lg, sizeof lg); close(p[1]); } close(p[0]); pclosed = true; }
    void hash(Hash &h) override { h.add(queued); h.add(pclosed | pshut << 1 | rst << 2 | (err != 0) << 3 | urg << 4); }
    int fd(int) override { return p[0]; }
    bool at_mark() override { return urg == 1; }
    bool rd_ready(int) override { return queued > 0 || pclosed || pshut; }
    bool rd_eof(int) override { return pclosed || pshut; }
    long rd_data(int) override { int n = 0; if (rst) { ioctl(p[0], FIONREAD, &n); return n; } return queued; }
    bool wr_ready(int) override { return true; }
    bool wr_eof(int) override { return rst; }
    void add_ops(std::vector<Op> &ops) override
    {
        if (mask & 1) ops.push_back({ name + ".pwrite", [=] { return !pclosed && !pshut && queued < 3; }, [=] {
            int n = queued ? 2 : 1; if (::write(p[1], "ab", n) != n) abort(); queued += n; for (int i = 0; i < 100000; i++) { int q = 0; ioctl(p[0], FIONREAD, &q); if (q == queued || urg) break; sched_yield(); } w->notify_rd(this, 0); } });
        if (mask & 2) ops.push_back({ name + ".read", [=] { return queued > 0 && !rst; }, [=] { char b[2]; if (::read(p[0], b, 1) != 1) abort(); queued--; if (urg) urg = 2; } });
        // an urgent byte ahead of ordinary ones: the count of readable bytes stops at the mark, the stream has not ended
        if (mask & 16) ops.push_back({ name + ".urg", [=] { return !pclosed && !pshut && queued == 0 && !urg; }, [=] { if (send(p[1], "u", 1, MSG_OOB) != 1 || ::write(p[1], "ab", 2) != 2) abort(); queued = 2; urg = 1; until(p[0], POLLPRI); until(p[0], POLLIN); w->notify_rd(this, 0); w->notify_wr(this, 0, false); } });
        if (mask & 4) ops.push_back({ name + ".pshut", [=] { return !pclosed && !pshut; }, [=] { shutdown(p[1], SHUT_WR); pshut = true; until(p[0], POLLRDHUP); w->notify_rd(this, 0); w->notify_wr(this, 0, false); } });
        if (mask & 8) ops.push_back({ name + ".reset", [=] { return !pclosed; }, [=] { struct linger lg = { 1, 0 }; setsockopt(p[1], SOL_SOCKET, SO_LINGER, &lg, sizeof lg); close(p[1]); pclosed = rst = true; err = pshut ? EPIPE : ECONNRESET; until(p[0], POLLHUP); w->notify_rd(this, 0); w->notify_wr(this, 0, true); } });
    }
};
// connected UDP sockets: sending to a peer that is gone leaves an error on the socket
struct UdpObj : Obj {
    int p[2]; bool pclosed; std::vector<int> dg; int err;
    int *sockerr() override { return &err; }
    void setup() override
    {
        struct sockaddr_in a[2]; socklen_t al;
        for (int i = 0; i < 2; i++) {
            p[i] = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
            memset(&a[i], 0, sizeof a[i]); a[i].sin_family = AF_INET; a[i].sin_addr.s_addr = own_addr(); al = sizeof a[i];
            if (p[i] < 0 || bind(p[i], (struct sockaddr *)&a[i], sizeof a[i]) || getsockname(p[i], (struct sockaddr *)&a[i], &al)) abort();
        }
        for (int i = 0; i < 2; i++) if (connect(p[i], (struct sockaddr *)&a[1 - i], sizeof a[i])) abort();
        pclosed = false; dg.clear(); err = 0;
    }
    void teardown() override { close(p[0]); if (!pclosed) close(p[1]); }
    void hash(Hash &h) override { h.add(pclosed | (err != 0) << 1); h.add(dg.size()); if (!dg.empty()) h.add(dg[0]); }
    int fd(int) override { return p[0]; }
    bool rd_ready(int) override { return !dg.empty() || err; }
    long rd_data(int) override { return dg.empty() ? 0 : dg[0]; }
    bool wr_ready(int) override { return true; }
    void add_ops(std::vector<Op> &ops) override
    {
        ops.push_back({ name + ".pwrite", [=] { return !pclosed && dg.size() < 2; }, [=] { int n = dg.empty() ? 3 : 1; if (::write(p[1], "abc", n) != n) abort(); dg.push_back(n); TcpObj::until(p[0], POLLIN); w->notify_rd(this, 0); w->notify_wr(this, 0, false); } });
        ops.push_back({ name + ".read", [=] { return !dg.empty() && !err; }, [=] { char b[8]; if (::read(p[0], b, 8) != dg[0]) abort(); dg.erase(dg.begin()); } });
        ops.push_back({ name + ".pclose", [=] { return !pclosed; }, [=] { close(p[1]); pclosed = true; } });
        ops.push_back({ name + ".bounce", [=] { return pclosed && !err; }, [=] { if (::write(p[0], "x", 1) != 1) abort(); TcpObj::until(p[0], POLLERR); err = ECONNREFUSED; w->notify_rd(this, 0); w->notify_wr(this, 0, true); } });
    }
};
// eventfd: readable while its counter is not zero, writable while it is not at its maximum
struct EvObj : Obj {
    int e; uint64_t n;
    void setup() override { e = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC); n = 0; }
    void teardown() override { close(e); }
    void hash(Hash &h) override { h.add(n > 9 ? 9 : n); }
    int fd(int) override { return e; }
    bool is_listen() override { return true; }
    bool rd_ready(int) override { return n > 0; }
    bool wr_ready(int) override { return n < 0xfffffffffffffffeull; }
    void add_ops(std::vector<Op> &ops) override
    {
        ops.push_back({ name + ".post", [=] { return n < 2; }, [=] { if (eventfd_write(e, 1)) abort(); n++; w->notify_rd(this, 0); w->notify_wr(this, 0, false); } });
        ops.push_back({ name + ".fill", [=] { return n == 0; }, [=] { if (eventfd_write(e, 0xfffffffffffffffeull)) abort(); n = 0xfffffffffffffffeull; w->notify_rd(this, 0); w->notify_wr(this, 0, false); } });
        ops.push_back({ name + ".take", [=] { return n > 0; }, [=] { eventfd_t v; if (eventfd_read(e, &v) || v != n) abort(); bool f = n > 9; n = 0; w->notify_wr(this, 0, f); if (!f) w->notify_rd_may(this, 0); else w->notify_rd_may(this, 0); } });
    }
};
// the slave side of a pseudo terminal in raw mode. What its master writes arrives a moment later: an epoll watch
// older than every other is told last, so once it has been told, everybody has.
struct PtyObj : Obj {
    int m, s, ep; long n; bool gone; int mask = 7;
    void arrived(long want)
    {
        for (int i = 0; i < 10000; i++) {
            struct epoll_event e;
            int q = 0;
            if (epoll_wait(ep, &e, 1, 2000) != 1) { fprintf(stderr, "the pseudo terminal does not answer\n"); abort(); }
            if (gone || (ioctl(s, FIONREAD, &q) == 0 && q == want)) return;
        }
        abort();
    }
    void setup() override
    {
        m = open("/dev/ptmx", O_RDWR | O_NOCTTY | O_CLOEXEC);
        int z = 0; char nm[64]; unsigned no;
        if (m < 0 || ioctl(m, TIOCSPTLCK, &z) || ioctl(m, TIOCGPTN, &no)) { perror("ptmx"); abort(); }
        snprintf(nm, sizeof nm, "/dev/pts/%u", no);
        s = open(nm, O_RDWR | O_NOCTTY | O_NONBLOCK | O_CLOEXEC);
        ep = epoll_create1(EPOLL_CLOEXEC);
        struct termios t;
        if (s < 0 || ep < 0 || tcgetattr(s, &t)) { perror(nm); abort(); }
        cfmakeraw(&t);
        struct epoll_event e = { EPOLLIN | EPOLLET, { 0 } };
        if (tcsetattr(s, TCSANOW, &t) || epoll_ctl(ep, EPOLL_CTL_ADD, s, &e)) abort();
        n = 0; gone = false;
    }
    void teardown() override { close(ep); close(s); if (!gone) close(m); }
    void hash(Hash &h) override { h.add(n); h.add(gone); }
    int fd(int) override { return s; }
    bool rd_ready(int) override { return n > 0 || gone; }
    bool rd_eof(int) override { return gone; }
    long rd_data(int) override { return n; }
    bool wr_ready(int) override { return true; }
    bool wr_eof(int) override { return gone; }
    void add_ops(std::vector<Op> &ops) override
    {
        if (mask & 1) for (int k : { 1, 3 }) ops.push_back({ name + fmt(".type%d", k), [=] { return !gone && n < 4; }, [=] { if (::write(m, "xyz", k) != k) abort(); n += k; arrived(n); w->notify_rd(this, 0); w->notify_wr(this, 0, false); } });
        if (mask & 2) ops.push_back({ name + ".read2", [=] { return !gone && n > 0; }, [=] { char b[2]; long r = ::read(s, b, 2); if (r < 1) abort(); n -= r; w->notify_rd_may(this, 0); w->notify_wr(this, 0, false); } });
        if (mask & 4) ops.push_back({ name + ".hangup", [=] { return !gone; }, [=] { gone = true; n = 0; close(m); arrived(0); w->notify_rd(this, 0); w->notify_wr(this, 0, true); } });
    }
};
struct FileObj : Obj {
    int f, f2; long size, off; std::string path; int mask = 7;
    void setup() override
    {
        path = scratch_dir() + "/" + name;
        f = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        f2 = open(path.c_str(), O_RDWR | O_CLOEXEC);
        if (f < 0 || f2 < 0 || ::write(f2, "abc", 3) != 3) abort();
        size = 3; off = 0;
    }
    void teardown() override { close(f); close(f2); unlink(path.c_str()); }
    void hash(Hash &h) override { h.add(size); h.add(off); }
    int fd(int) override { return f; }
    bool is_file() override { return true; }
    bool rd_ready(int) override { return off != size; }
    long rd_data(int) override { return size - off; }
    bool wr_ready(int) override { return true; }
    void add_ops(std::vector<Op> &ops) override
    {
        if (mask & 1) ops.push_back({ name + ".read2", [=] { return off < size; }, [=] { char b[2]; long r = ::read(f, b, 2); if (r < 1) abort(); off += r; } });
        if (mask & 2) ops.push_back({ name + ".append", [=] { return size < 5; }, [=] { if (pwrite(f2, "de", 2, size) != 2) abort(); size += 2; w->notify_rd(this, 0); } });
        if (mask & 4) ops.push_back({ name + ".rewind", [=] { return off > 0; }, [=] { lseek(f, 0, SEEK_SET); off = 0; w->notify_rd(this, 0); } });
        if (mask & 8) ops.push_back({ name + ".seekend", [=] { return off != size; }, [=] { lseek(f, size, SEEK_SET); off = size; } });
        if (mask & 16) ops.push_back({ name + ".seekpast", [=] { return off < size + 2; }, [=] { lseek(f, size + 2, SEEK_SET); off = size + 2; w->notify_rd(this, 0); } });
        if (mask & 32) ops.push_back({ name + ".grow", [=] { return size < 100; }, [=] { if (ftruncate(f2, 5000000000l)) abort(); size = 5000000000l; w->notify_rd(this, 0); } });
        if (mask & 64) ops.push_back({ name + ".shrink", [=] { return size > 1; }, [=] { if (ftruncate(f2, 1)) abort(); size = 1; w->notify_rd(this, 0); } });
    }
};
// children share the address space (cheap to create) and only make raw system calls
struct ChildObj : Obj {
    int pid; bool exited, killed, reaped; int *word; char *stack; int status, real; int nops = 3;
    static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0)
    {
        long r; register long r10 __asm__("r10") = d;
        __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
        return r;
    }
    __attribute__((no_sanitize("address"))) static int body(void *p)
    {
        int *w = (int *)p;
        int v;
        raw(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL);
        while ((v = __atomic_load_n(w, __ATOMIC_ACQUIRE)) == 0) raw(SYS_futex, (long)w, FUTEX_WAIT, 0, 0);
        if (v >= 1000) { raw(SYS_kill, raw(SYS_getpid), v - 1000); for (;;) raw(SYS_pause); }
        raw(SYS_exit, v - 1);
        return 0;
    }
    void setup() override
    {
        static std::map<std::string, char *> pool;
        if (!pool[name]) pool[name] = (char *)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        stack = pool[name];
        word = (int *)stack;
        *word = 0;
        sigset_t all, old; sigfillset(&all); sigprocmask(SIG_SETMASK, &all, &old);
        sigset_t none; (void)none;
        pid = clone(body, stack + 65536, CLONE_VM | SIGCHLD, word);
        sigprocmask(SIG_SETMASK, &old, nullptr);
        if (pid < 0) abort();
        exited = killed = reaped = false; status = real = 0; rt::fake_pid = 0;
    }
    void finish(int v, int st)
    {
        __atomic_store_n(word, v, __ATOMIC_RELEASE);
        raw(SYS_futex, (long)word, FUTEX_WAKE, 1);
        siginfo_t si; waitid(P_PID, pid, &si, WEXITED | WNOWAIT);
        exited = true; status = real = st;
    }
    // the kernel's account of the exit is replaced: core dumps and signals that cannot be provoked safely here
    void pretend(int code, int sig) { finish(1000 + SIGKILL, SIGKILL); rt::fake_pid = pid; rt::fake_code = code; rt::fake_status = sig; status = sig | (code == CLD_DUMPED ? 0x80 : 0); }
    void teardown() override
    {
        if (!exited) finish(1, 0);
        if (reaped) { pid = -1; return; }
        int st = -1;
        if (waitpid(pid, &st, __WALL) != pid) { pid = -1; fail("child of %s is no longer waitable", name.c_str()); }
        int p = pid; pid = -1;
        if (st != real) fail("waitpid(%d) returns status %#x, expected %#x", p, st, real);
    }
    void hash(Hash &h) override { h.add(exited); h.add(status); h.add(reaped); }
    void add_ops(std::vector<Op> &ops) override
    {
        ops.push_back({ name + ".exit0", [=] { return !exited; }, [=] { finish(1, 0); } });
        ops.push_back({ name + ".exit7", [=] { return !exited; }, [=] { finish(8, 7 << 8); } });
        if (nops > 2) ops.push_back({ name + ".sigkill", [=] { return !exited; }, [=] { finish(1000 + SIGKILL, SIGKILL); } });
        if (nops > 4) ops.push_back({ name + ".reap", [=] { return exited && !reaped; }, [=] { int st = -1; if (waitpid(pid, &st, __WALL) != pid) fail("child of %s is no longer waitable", name.c_str()); if (st != real) fail("waitpid returns status %#x, expected %#x", st, real); reaped = true; } });
        if (nops > 4) {
            ops.push_back({ name + ".dump", [=] { return !exited; }, [=] { pretend(CLD_DUMPED, SIGSEGV); } });
            ops.push_back({ name + ".dump64", [=] { return !exited; }, [=] { pretend(CLD_DUMPED, 64); } });
            ops.push_back({ name + ".killed64", [=] { return !exited; }, [=] { pretend(CLD_KILLED, 64); } });
            ops.push_back({ name + ".exit255", [=] { return !exited; }, [=] { finish(256, 255 << 8); } });
        }
        if (nops > 3) ops.push_back({ name + ".exit200", [=] { return !exited; }, [=] { finish(201, 200 << 8); } });
    }
};
struct VFileObj : Obj {
    int f, f2; long size; int nlink; bool deleted; int gen; int moves, reads; std::string path, path2; std::vector<std::string> links; int mask = 0x3ff; int chm; int deep = 0;
    std::vector<std::string> dirs;
    void setup() override
    {
        path = scratch_dir(); dirs.clear();
        for (int i = 0; i < deep; i++) { path += "/" + std::string(250, 'a' + i); dirs.push_back(path); if (mkdir(path.c_str(), 0700) && errno != EEXIST) abort(); }
        path += "/" + name; path2 = path + ".l";
        unlink(path2.c_str());
        unlink(path.c_str());
        f = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
        f2 = open(path.c_str(), O_RDWR | O_CLOEXEC);
        if (f < 0 || f2 < 0 || ::write(f2, "abcd", 4) != 4) abort();
        size = 4; nlink = 1; deleted = false; moves = reads = 0; chm = 0;
    }
    void teardown() override { close(f); close(f2); unlink(path.c_str()); unlink((path + ".m").c_str()); unlink(path2.c_str()); while (!dirs.empty()) { rmdir(dirs.back().c_str()); dirs.pop_back(); } }
    void hash(Hash &h) override { h.add(size); h.add(nlink); h.add(deleted); h.add(moves); }
    int fd(int) override { return f; }
    std::string cur() { return moves & 1 ? path + ".m" : path; }
    void add_ops(std::vector<Op> &ops) override
    {
        if (mask & 1) ops.push_back({ name + ".overwrite", [=] { return true; }, [=] { if (pwrite(f2, "z", 1, 0) != 1) abort(); w->vnode_change(this, NOTE_WRITE, 0); } });
        if (mask & 2) ops.push_back({ name + ".append", [=] { return size < 6; }, [=] { if (pwrite(f2, "z", 1, size) != 1) abort(); size++; w->vnode_change(this, NOTE_WRITE | NOTE_EXTEND, 0); } });
        if (mask & 4) ops.push_back({ name + ".trunc", [=] { return size > 2; }, [=] { if (ftruncate(f2, 2)) abort(); size = 2; w->vnode_change(this, 0, NOTE_WRITE | NOTE_ATTRIB); } });
        if (mask & 8) ops.push_back({ name + ".chmod", [=] { return true; }, [=] { chm ^= 1; if (fchmod(f2, chm ? 0640 : 0600)) abort(); w->vnode_change(this, NOTE_ATTRIB, 0); } });
        if (mask & 16) ops.push_back({ name + ".link", [=] { return !deleted && nlink < 2; }, [=] { if (link(cur().c_str(), path2.c_str())) abort(); nlink = 2; w->vnode_change(this, NOTE_LINK, NOTE_ATTRIB); } });
        if (mask & 32) ops.push_back({ name + ".unlink2", [=] { return nlink == 2; }, [=] { if (unlink(path2.c_str())) abort(); nlink = 1; w->vnode_change(this, NOTE_LINK, NOTE_ATTRIB); } });
        if (mask & 64) ops.push_back({ name + ".rename", [=] { return !deleted; }, [=] { std::string o = cur(); moves++; if (rename(o.c_str(), cur().c_str())) abort(); w->vnode_change(this, NOTE_RENAME, NOTE_ATTRIB); } });
        if (mask & 128) ops.push_back({ name + ".delete", [=] { return !deleted && nlink == 1; }, [=] { if (unlink(cur().c_str())) abort(); nlink = 0; deleted = true; w->vnode_change(this, NOTE_DELETE, NOTE_LINK | NOTE_ATTRIB); } });
        if (mask & 256) ops.push_back({ name + ".openread", [=] { return !deleted; }, [=] { int g = open(cur().c_str(), O_RDONLY | O_CLOEXEC); char b[4]; if (g < 0 || ::read(g, b, 4) < 0) abort(); close(g); } });
        if (mask & 512) ops.push_back({ name + ".openrw", [=] { return !deleted; }, [=] { int g = open(cur().c_str(), O_RDWR | O_CLOEXEC); if (g < 0) abort(); close(g); } });
    }
};
// a directory: what happens to its entries is left open, what happens to itself is not
struct VDirObj : VFileObj {
    bool lng; std::string child, child2;
    void setup() override
    {
        path = scratch_dir() + "/" + name; moves = 0; lng = false;
        clean();
        if (mkdir(path.c_str(), 0700)) abort();
        child = "/" + std::string(200, 'c'); child2 = "/" + std::string(255, 'd');
        int g = open((path + child).c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600);
        if (g < 0) abort();
        close(g);
        f = open(path.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC); f2 = -1;
        if (f < 0) abort();
        size = 0; nlink = 2; deleted = false; chm = 0;
    }
    void clean() { for (const char *d : { "", ".m" }) { std::string b = path + d; if (!child.empty()) { unlink((b + child).c_str()); unlink((b + child2).c_str()); } rmdir(b.c_str()); } }
    void teardown() override { close(f); clean(); }
    void hash(Hash &h) override { h.add(lng); h.add(deleted); h.add(moves & 1); }
    void add_ops(std::vector<Op> &ops) override
    {
        const uint32_t any = NOTE_WRITE | NOTE_EXTEND | NOTE_ATTRIB | NOTE_LINK;
        ops.push_back({ name + ".childwrite", [=] { return !deleted; }, [=] { int g = open((cur() + child).c_str(), O_RDWR | O_CLOEXEC); if (g < 0 || ::write(g, "x", 1) != 1) abort(); close(g); w->vnode_change(this, 0, any); } });
        ops.push_back({ name + ".childchmod", [=] { return !deleted; }, [=] { chm ^= 1; if (::chmod((cur() + child).c_str(), chm ? 0640 : 0600)) abort(); w->vnode_change(this, 0, any); } });
        ops.push_back({ name + ".long", [=] { return !deleted; }, [=] {
            if (lng) { if (unlink((cur() + child2).c_str())) abort(); } else { int g = open((cur() + child2).c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0600); if (g < 0 || ::write(g, "x", 1) != 1) abort(); close(g); }
            lng = !lng; w->vnode_change(this, 0, any); } });
        ops.push_back({ name + ".chmod", [=] { return !deleted; }, [=] { chm ^= 1; if (fchmod(f, chm ? 0750 : 0700)) abort(); w->vnode_change(this, NOTE_ATTRIB, any); } });
        ops.push_back({ name + ".rename", [=] { return !deleted; }, [=] { std::string o = cur(); moves++; if (rename(o.c_str(), cur().c_str())) abort(); w->vnode_change(this, NOTE_RENAME, any); } });
        ops.push_back({ name + ".rmdir", [=] { return !deleted; }, [=] {
            unlink((cur() + child).c_str()); unlink((cur() + child2).c_str());
            if (rmdir(cur().c_str())) abort();
            nlink = 0; deleted = true; w->vnode_change(this, 0, any | NOTE_DELETE); } });     // inotify tells nothing while the descriptor is open
    }
};
static volatile int sig_handled[80];
static void on_sig(int s) { sig_handled[s]++; }
struct SigObj : Obj {
    int signo, mask = 1;
    void setup() override
    {
        sigset_t s; sigemptyset(&s); sigaddset(&s, signo);
        struct timespec z = { 0, 0 };
        sigprocmask(SIG_BLOCK, &s, nullptr);
        while (sigtimedwait(&s, nullptr, &z) > 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sigaction(signo, &sa, nullptr);
        sigprocmask(SIG_UNBLOCK, &s, nullptr);
        sig_handled[signo] = 0;
        w->sigpend[signo] = 0; w->sigblocked[signo] = false; w->handled[signo] = 0;
    }
    void teardown() override { setup(); }
    void hash(Hash &h) override { h.add(w->sigpend[signo]); h.add(w->sigblocked[signo]); }
    void add_ops(std::vector<Op> &ops) override
    {
        ops.push_back({ name + ".kill", [=] { return w->sigpend[signo] < 2; }, [=] {
            if (w->sigblocked[signo]) { if (signo >= SIGRTMIN) w->sigpend[signo]++; else w->sigpend[signo] = 1; }
            else w->handled[signo]++;
            kill(getpid(), signo);
            if (sig_handled[signo] != w->handled[signo]) fail("signal %d %s", signo, sig_handled[signo] > w->handled[signo] ? "ran its normal disposition although registered" : "vanished");
        } });
        if (mask & 2) ops.push_back({ name + ".take", [=] { return w->sigpend[signo] > 0; }, [=] {      // the program consumes a pending one itself
            sigset_t s; sigemptyset(&s); sigaddset(&s, signo);
            struct timespec z = { 0, 0 };
            int r = sigtimedwait(&s, nullptr, &z);
            if (r < 0 && errno == EAGAIN && rt::mid_busy) return;      // the call that is going on has it already and has to report it
            if (r != signo) fail("signal %d is pending, but sigtimedwait returned %d", signo, r);
            w->sigpend[signo]--; w->sigtook = signo;
        } });
    }
};
Obj *mk_pipe(World *w, const char *nm) { auto *o = new PipeObj; o->fifo = false; o->name = nm; return w->obj(o); }
Obj *mk_fifo(World *w, const char *nm) { auto *o = new PipeObj; o->fifo = true; o->name = nm; return w->obj(o); }
Obj *mk_sock(World *w, const char *nm, int type) { auto *o = new SockObj; o->type = type; o->name = nm; return w->obj(o); }
// one socket under two numbers
struct DupSockObj : SockObj {
    int d;
    void setup() override { SockObj::setup(); d = fcntl(p[0], F_DUPFD_CLOEXEC, 3); if (d < 0) abort(); }
    void teardown() override { close(d); SockObj::teardown(); }
    int fd(int s) override { return s == 7 ? d : p[0]; }
};
Obj *mk_dupsock(World *w, const char *nm) { auto *o = new DupSockObj; o->type = SOCK_STREAM; o->name = nm; return w->obj(o); }
Obj *mk_listen(World *w, const char *nm) { auto *o = new ListenObj; o->name = nm; return w->obj(o); }
Obj *mk_tcp(World *w, const char *nm) { auto *o = new TcpObj; o->name = nm; return w->obj(o); }
Obj *mk_udp(World *w, const char *nm) { auto *o = new UdpObj; o->name = nm; return w->obj(o); }
Obj *mk_pty(World *w, const char *nm) { auto *o = new PtyObj; o->name = nm; return w->obj(o); }
Obj *mk_ev(World *w, const char *nm) { auto *o = new EvObj; o->name = nm; return w->obj(o); }
Obj *mk_file(World *w, const char *nm) { auto *o = new FileObj; o->name = nm; return w->obj(o); }
Obj *mk_child(World *w, const char *nm) { auto *o = new ChildObj; o->name = nm; return w->obj(o); }
Obj *mk_vfile(World *w, const char *nm) { auto *o = new VFileObj; o->name = nm; return w->obj(o); }
Obj *mk_vdeep(World *w, const char *nm, int deep) { auto *o = new VFileObj; o->name = nm; o->deep = deep; return w->obj(o); }
Obj *mk_vdir(World *w, const char *nm) { auto *o = new VDirObj; o->name = nm; return w->obj(o); }
Obj *mk_sig(World *w, const char *nm, int signo) { auto *o = new SigObj; o->signo = signo; o->name = nm; return w->obj(o); }
int64_t obj_status(Obj *o) { return ((ChildObj *)o)->status; }
void obj_notify_flags(Obj *o, int m)
{
    if (auto *p = dynamic_cast<PipeObj *>(o)) p->mask = m;
    else if (auto *s = dynamic_cast<SockObj *>(o)) s->mask = m;
    else if (auto *v = dynamic_cast<VFileObj *>(o)) v->mask = m;
    else if (auto *c = dynamic_cast<ChildObj *>(o)) c->nops = m;
    else if (auto *f = dynamic_cast<FileObj *>(o)) f->mask = m;
    else if (auto *t = dynamic_cast<TcpObj *>(o)) t->mask = m;
    else if (auto *g = dynamic_cast<SigObj *>(o)) g->mask = m;
}

// ================================================================ slots / model
Slot *World::slot(const char *nm, int kq, short filt, Obj *o, int side, uintptr_t uid)
{
    auto *s = new Slot; s->w = this; s->name = nm; s->kq = kq; s->filt = filt; s->obj = o; s->side = side; s->uid = uid;
    if (filt == EVFILT_PROC) s->areq = NOTE_EXIT;
    slots.emplace_back(s);
    return s;
}
uintptr_t Slot::ident() const
{
    if (wide) return (uintptr_t)(filt == EVFILT_PROC ? ((ChildObj *)obj)->pid : filt == EVFILT_SIGNAL ? (int)uid : obj->fd(side)) + 0x100000000ull;
    switch (filt) {
    case EVFILT_READ: case EVFILT_WRITE: case EVFILT_VNODE: return obj ? obj->fd(side) : uid;
    case EVFILT_PROC: return obj ? ((ChildObj *)obj)->pid : uid;
    case EVFILT_TIMER: case EVFILT_USER: return obj ? obj->fd(side) : uid;      // an ident that equals somebody's descriptor
    }
    return uid;
}
bool Slot::cond()
{
    switch (filt) {
    case EVFILT_READ: return obj->rd_ready(side);
    case EVFILT_WRITE: return obj->wr_ready(side);
    case EVFILT_TIMER: return armed && next <= rt::vnow;
    case EVFILT_USER: return trig;
    case EVFILT_SIGNAL: return w->sigpend[uid] > 0;
    case EVFILT_PROC: return ((ChildObj *)obj)->exited && (cfg_ff & NOTE_EXIT);
    case EVFILT_VNODE: return vmust || vmay;
    }
    return false;
}
Tri Slot::ready()
{
    if (!present || !enabled) return NO;
    if (!cond()) return NO;
    if (filt == EVFILT_READ || filt == EVFILT_WRITE) {
        if (parked && !w->strict) return MAY;              // known finding F-FILE-EOF
        if (clear) {
            if (edge == NO) for (auto &o : w->slots) if (o.get() != this && o->kq == kq && o->present && o->enabled && o->ident() == ident() && (o->filt == EVFILT_READ || o->filt == EVFILT_WRITE) && !o->clear) return w->strict ? NO : MAY;   // known finding F-SHARED-CLEAR
            return edge;
        }
    }
    if (filt == EVFILT_VNODE) return vmust ? MUST : MAY;
    return MUST;
}
void Slot::arm_timer()
{
    int64_t ns;
    switch (cfg_ff & 7) {
    case NOTE_SECONDS: ns = cfg_data * 1000000000LL; break;
    case NOTE_USECONDS: ns = cfg_data * 1000; break;
    case NOTE_NSECONDS: ns = cfg_data; break;
    default: ns = cfg_data * 1000000; break;
    }
    armed = true;
    next = cfg_ff & NOTE_ABSOLUTE ? ns : rt::vnow + ns;
    interval = oneshot ? 0 : ns;
}
// other registrations on the same descriptor: re-arming the descriptor may repeat what they reported
void Slot::touch_shared()
{
    if (filt != EVFILT_READ && filt != EVFILT_WRITE) return;
    for (auto &o : w->slots) if (o.get() != this && o->kq == kq && o->present && o->obj == obj && o->ident() == ident() && (o->filt == EVFILT_READ || o->filt == EVFILT_WRITE) && o->edge == NO) o->edge = MAY;
}
void Slot::removed() { if (present && !w->strict) touch_shared(); present = enabled = false; trig = false; armed = false; edge = NO; parked = false; vmust = vmay = 0; skipped = 0; }
void Slot::on_enable()
{
    if (!w->strict) touch_shared();
    enabled = true; parked = false;
    edge = MUST;
    if (filt == EVFILT_TIMER) arm_timer();
    if (filt == EVFILT_VNODE) { vmust = vmay = 0; auto *v = (VFileObj *)obj; vstale = v->nlink != vnlink || v->size != vsize; }
    if (filt == EVFILT_SIGNAL) w->sigblocked[uid] = true;
}
// Check the contents of an event for this slot
// the error of a socket is reported once, in fflags
void Slot::check_err(const struct kevent &e)
{
    int *pe = obj->sockerr();
    // the first report takes the error away; another one of the same call may still mention it
    if (pe && e.fflags != (uint32_t)*pe && !(*pe == 0 && obj->err0 && e.fflags == (uint32_t)obj->err0)) fail("%s: fflags=%u, but the error of the socket is %d (%s)", name.c_str(), e.fflags, *pe, strerror(*pe));
    if (pe) *pe = 0;
}
void Slot::check(const struct kevent &e)
{
    if ((uintptr_t)e.udata != udata) fail("%s: event carries udata %p, registered %p", name.c_str(), e.udata, (void *)udata);
    if (e.flags & EV_ERROR) fail("%s: event carries the error flag: %s", name.c_str(), kev_str(e).c_str());
    bool eof = e.flags & EV_EOF;
    switch (filt) {
    case EVFILT_READ: {
        if (obj->is_listen()) { if (e.data < 1) fail("%s: pending connection reported with data=%ld", name.c_str(), (long)e.data); }
        else if (e.data != obj->rd_data(side) && !(obj->at_mark() && e.data == 0)) fail("%s: data=%ld but %ld bytes can be read", name.c_str(), (long)e.data, obj->rd_data(side));
        if (eof != obj->rd_eof(side) && !(eof && obj->sockerr() && obj->err0)) fail("%s: EOF flag %s but the writing side is %s (%s)", name.c_str(), eof ? "set" : "missing", obj->rd_eof(side) ? "gone" : "open", kev_str(e).c_str());
        if (!eof && e.fflags && !obj->sockerr()) fail("%s: unexpected fflags %#x", name.c_str(), e.fflags);
        check_err(e);
        break;
    }
    case EVFILT_WRITE: {
        if (eof != obj->wr_eof(side) && !(eof && obj->sockerr() && obj->err0)) fail("%s: EOF flag %s but the other end is %s", name.c_str(), eof ? "set" : "missing", obj->wr_eof(side) ? "gone" : "open");
        int q = 0;
        if (obj->is_file() || ioctl(obj->fd(side), SIOCOUTQ, &q) < 0) q = 0;
        if (e.data != q && !(eof && e.data == 0)) fail("%s: data=%#lx but the output queue of the descriptor is %d", name.c_str(), (long)e.data, q);
        if (!eof && e.fflags && !obj->sockerr()) fail("%s: unexpected fflags %#x", name.c_str(), e.fflags);
        check_err(e);
        break;
    }
    case EVFILT_TIMER: {
        int64_t n = 1;
        if (interval > 0) n += (rt::vnow - next) / interval;
        if (e.data != n) fail("%s: data=%ld expirations reported, %ld elapsed", name.c_str(), (long)e.data, (long)n);
        break;
    }
    case EVFILT_USER:
        if (e.fflags != (uff & 0xffffff)) fail("%s: fflags=%#x expected %#x", name.c_str(), e.fflags, uff & 0xffffff);
        break;
    case EVFILT_SIGNAL:
        if (e.data != 1) fail("%s: data=%ld expected 1", name.c_str(), (long)e.data);
        break;
    case EVFILT_PROC:
        if (((ChildObj *)obj)->reaped) { if (e.data != 0 && e.data != obj_status(obj)) fail("%s: exit status %#lx reported for a reaped child whose status was %#lx", name.c_str(), (long)e.data, (long)obj_status(obj)); }
        else if (e.data != obj_status(obj)) fail("%s: exit status %#lx reported, waitpid gives %#lx", name.c_str(), (long)e.data, (long)obj_status(obj));
        if (!eof) fail("%s: exit event without EOF flag", name.c_str());
        if (!(e.fflags & NOTE_EXIT)) fail("%s: exit event without NOTE_EXIT (fflags %#x)", name.c_str(), e.fflags);
        break;
    case EVFILT_VNODE: {
        if (!e.fflags) fail("%s: event reports no change", name.c_str());
        uint32_t ok = vmust | vmay;
        if (e.fflags & ~ok) fail("%s: event reports %#x, but only %#x was requested and happened", name.c_str(), e.fflags, ok);
        break;
    }
    }
}
void Slot::delivered(const struct kevent &e)
{
    edge = NO; skipped = 0;
    if (filt == EVFILT_TIMER) {
        if (interval > 0) next += ((rt::vnow - next) / interval + 1) * interval;
        else armed = false;
    }
    if (filt == EVFILT_SIGNAL) w->sigpend[uid]--;
    if (filt == EVFILT_USER && (clear || dispatch || oneshot)) trig = false;
    if (filt == EVFILT_VNODE) vmust &= ~e.fflags;      // further queued reports of the same kind remain possible
    if (filt == EVFILT_PROC) { removed(); return; }
    if (oneshot) removed();
    else if (dispatch) { if (!w->strict) touch_shared(); enabled = false; armed = false; vmust = vmay = 0; if (filt == EVFILT_VNODE) { auto *v = (VFileObj *)obj; vnlink = v->nlink; vsize = v->size; } }
}
void Slot::hash(Hash &h)
{
    h.add(present | enabled << 1 | oneshot << 2 | dispatch << 3 | clear << 4 | edge << 5 | parked << 7 | trig << 8 | armed << 9);
    h.add(udata); h.add(uff); h.add(vmust | (uint64_t)vmay << 32); h.add(cfg_ff); h.add(cfg_data);
    if (armed) { int64_t d = next - rt::vnow; h.add(d < -1000000000 ? -1000000000 : d); h.add(interval); }
    if (present) { h.add(vnlink); h.add(vsize); h.add(vstale); }
}

// ================================================================ world
struct kevent World::to_kev(const Change &c)
{
    struct kevent k;
    EV_SET(&k, c.s->ident(), c.badfilt ? c.badfilt : c.s->filt, c.flags, c.fflags, c.data, (void *)c.udata);
    return k;
}
int World::model_change(const Change &c)
{
    Slot *s = c.s;
    if ((c.flags & EV_DISPATCH) && (c.flags & EV_ONESHOT)) return -1;
    if (c.badfilt) return -1;
    if (!s->present) {
        if (!(c.flags & EV_ADD)) return ENOENT;
        if (s->wide) return -1;
        if ((s->filt == EVFILT_READ || s->filt == EVFILT_WRITE || s->filt == EVFILT_VNODE || s->filt == EVFILT_PROC) && !s->obj) return -1;   // bad descriptor
        s->present = true;
        s->oneshot = c.flags & EV_ONESHOT; s->dispatch = c.flags & EV_DISPATCH; s->clear = c.flags & EV_CLEAR;
        s->udata = c.udata;
        s->cfg_data = c.data; s->cfg_ff = c.fflags;
        s->trig = false; s->uff = 0; s->parked = false; s->skipped = 0;
        if (s->filt == EVFILT_USER) s->uff = c.fflags & 0xffffff;
        if (s->filt == EVFILT_VNODE) { auto *v = (VFileObj *)s->obj; s->vnlink = v->nlink; s->vsize = v->size; s->vmust = s->vmay = 0; s->vstale = false; }
        if (c.flags & EV_DISABLE) { if (!strict) s->touch_shared(); s->enabled = false; s->armed = false; if (s->filt == EVFILT_SIGNAL) sigblocked[s->uid] = true; }
        else s->on_enable();
        return 0;
    }
    if (c.flags & EV_DELETE) { s->removed(); return 0; }
    if (c.flags & EV_DISABLE) {
        if (s->enabled && s->filt == EVFILT_VNODE) { auto *v = (VFileObj *)s->obj; s->vnlink = v->nlink; s->vsize = v->size; s->vmust = s->vmay = 0; }
        if (!strict) s->touch_shared();
        s->enabled = false; s->armed = false;
        if (c.flags & EV_ADD) s->udata = c.udata;
        return 0;
    }
    if (c.flags & EV_ENABLE) {
        if (!s->enabled) s->on_enable();
        if (c.flags & EV_ADD) s->udata = c.udata;
        return 0;
    }
    if (s->filt == EVFILT_VNODE) return -1;      // documented stub
    if ((c.flags & EV_ADD) && !s->enabled) s->on_enable();
    s->udata = c.udata;
    if (s->filt == EVFILT_TIMER) {
        s->oneshot = c.flags & EV_ONESHOT; s->dispatch = c.flags & EV_DISPATCH;
        s->cfg_data = c.data; s->cfg_ff = c.fflags;
        s->arm_timer();
    }
    if (s->filt == EVFILT_PROC) s->cfg_ff = c.fflags;
    if (s->filt == EVFILT_USER) {
        uint32_t v = c.fflags & 0xffffff;
        switch (c.fflags & NOTE_FFCTRLMASK) {
        case NOTE_FFAND: s->uff &= v; break;
        case NOTE_FFOR: s->uff |= v; break;
        case NOTE_FFCOPY: s->uff = v; break;
        }
        if ((c.fflags & NOTE_TRIGGER) && s->enabled) s->trig = true;
    }
    if (s->filt == EVFILT_READ || s->filt == EVFILT_WRITE) if (s->edge == NO) s->edge = MAY;
    if (s->filt != EVFILT_TIMER) s->dispatch = c.flags & EV_DISPATCH;
    return 0;
}
void World::check_rt(const char *what)
{
    if (rt::blocked_forever) fail("%s: the call would block for ever", what);
    if (!rt::faults_seen.empty()) fail("%s: %s", what, rt::faults_seen[0].c_str());
}
// call into the library with canaries around the event list
int World::call(int kq, const struct kevent *ch, int nch, struct kevent *out, int nev, const struct timespec *ts)
{
    struct kevent buf[24];
    memset(buf, 0x5a, sizeof buf);
    struct kevent chc[16];
    if (nch > 0) memcpy(chc, ch, nch * sizeof *ch);
    int r = rt::kq_event(kqs[kq], nch ? chc : nullptr, nch, nev ? buf + 2 : nullptr, nev, ts);
    int e = errno;
    const unsigned char *b = (const unsigned char *)buf;
    for (size_t i = 0; i < sizeof buf; i++) {
        if (i >= 2 * sizeof(struct kevent) && i < (2 + (size_t)nev) * sizeof(struct kevent)) continue;
        if (b[i] != 0x5a) fail("kevent wrote outside the %d entries of the event list", nev);
    }
    if (nch > 0 && memcmp(chc, ch, nch * sizeof *ch)) fail("kevent modified the change list");
    if (r > nev && nev >= 0) fail("kevent returned %d for an event list of %d", r, nev);
    if (out && nev > 0) memcpy(out, buf + 2, nev * sizeof *out);
    errno = e;
    return r;
}
void World::change(Slot *s, unsigned flags, uint32_t fflags, int64_t data, uintptr_t udata)
{
    Change c{ s, flags | (style == 1 ? EV_RECEIPT : 0), fflags, data, udata };
    struct kevent k = to_kev(c);
    bool was = s->present;
    int want = model_change(c);
    struct kevent out[2];
    int nev = style == 1 ? 1 : 0;
    struct timespec z = { 0, 0 };
    errno = 0;
    int r = call(s->kq, &k, 1, out, nev, &z);
    int e = errno;
    check_rt(("change " + s->name).c_str());
    int got = 0;
    if (style == 1) {
        if (r != 1) fail("%s: change with receipt returned %d (errno %d) instead of one entry", s->name.c_str(), r, e);
        if (!(out[0].flags & EV_ERROR) || out[0].ident != k.ident || out[0].filter != k.filter || out[0].udata != k.udata) fail("%s: bad receipt %s", s->name.c_str(), kev_str(out[0]).c_str());
        got = out[0].data;
    } else {
        if (r != 0 && r != -1) fail("%s: change without event list returned %d", s->name.c_str(), r);
        if (r == -1) { got = e ? e : -2; if (!e) fail("%s: change failed with errno 0", s->name.c_str()); }
    }
    if (want == 0 && got) fail("%s: change flags=%#x on %s registration failed with errno %d", s->name.c_str(), flags, was ? "a present" : "an absent", got);
    if (want != 0 && !got) fail("%s: change flags=%#x on %s registration succeeded, expected errno %d", s->name.c_str(), flags, was ? "a present" : "an absent", want);
    if (want > 0 && got != want) fail("%s: change flags=%#x failed with errno %d, expected %d", s->name.c_str(), flags, got, want);
}
void World::process_events(int kq, const struct kevent *ev, int n, int k, const char *what)
{
    int must = 0, may = 0;
    for (auto &o : objs) if (int *pe = o->sockerr()) o->err0 = *pe;
    for (auto &s : slots) if (s->kq == kq) { Tri t = s->ready(); if (t == MUST) must++; else if (t == MAY) may++; }
    std::vector<Slot *> got;
    for (int i = 0; i < n; i++) {
        Slot *m = nullptr;
        for (auto &s : slots) if (s->kq == kq && s->filt == ev[i].filter && s->ident() == ev[i].ident) m = s.get();
        if (!m) fail("%s: event for something never registered here: %s", what, kev_str(ev[i]).c_str());
        if (!m->present) fail("%s: event for %s, which is not registered any more: %s", what, m->name.c_str(), kev_str(ev[i]).c_str());
        if (!m->enabled) fail("%s: event for %s, which is disabled: %s", what, m->name.c_str(), kev_str(ev[i]).c_str());
        if (m->ready() == NO) fail("%s: event for %s, whose condition does not hold%s: %s", what, m->name.c_str(), m->cond() ? " anew (already reported)" : "", kev_str(ev[i]).c_str());
        for (Slot *g : got) if (g == m) fail("%s: %s is reported twice in one call", what, m->name.c_str());
        m->check(ev[i]);
        got.push_back(m);
    }
    if (check_min) {
        // known finding F-FILE-EOF: a regular file found at its end uses up an entry of the list
        int eofs = 0;
        if (!strict) for (auto &s : slots) if (s->kq == kq && s->present && s->enabled && s->filt == EVFILT_READ && s->obj && s->obj->is_file() && !s->cond()) eofs++;
        int want = must < k - eofs ? must : k - eofs;
        if (want < 1 && must > 0 && k > 0) want = 1;
        if (n < want) {
            std::string miss;
            for (auto &s : slots) if (s->kq == kq && s->ready() == MUST) { bool f = false; for (Slot *g : got) if (g == s.get()) f = true; if (!f) miss += " " + s->name; }
            fail("%s: %d events returned but %d are pending (list of %d); missing:%s", what, n, must, k, miss.c_str());
        }
    }
    bool vn = false;
    for (auto &s : slots) {
        if (s->kq != kq) continue;
        if (s->filt == EVFILT_VNODE) vn = true;
        if (s->present && s->enabled && s->filt == EVFILT_READ && s->obj && s->obj->is_file() && !s->cond()) s->parked = true;
        Tri t = s->ready();
        bool d = false;
        for (Slot *g : got) if (g == s.get()) d = true;
        if (!d && t == MUST) {
            s->skipped++;
            int regs = 0; for (auto &x : slots) if (x->kq == kq && x->present) regs++;
            if (fair && s->skipped > 3 * regs) fail("%s: %s stays pending but was left out of %d consecutive calls", what, s->name.c_str(), s->skipped);
        }
    }
    (void)vn;
    std::vector<Slot *> shared;
    if (!strict) for (Slot *g : got) for (auto &o : slots) if (g->clear && g->obj && o.get() != g && o->kq == kq && o->present && o->obj == g->obj && o->ident() == g->ident() && (g->filt == EVFILT_READ || g->filt == EVFILT_WRITE) && (o->filt == EVFILT_READ || o->filt == EVFILT_WRITE)) { shared.push_back(g); break; }
    for (int i = 0; i < n; i++) { if (on_event) on_event(got[i]); got[i]->delivered(ev[i]); }
    for (Slot *g : shared) if (g->present && g->edge == NO) g->edge = MAY;      // edge mode is promised only for a descriptor of its own
    (void)may;
}
int World::collect(int kq, int k, const struct timespec *ts, bool block)
{
    struct kevent out[16];
    struct timespec z = { 0, 0 };
    bool vn = false;
    for (auto &s : slots) if (s->kq == kq && s->filt == EVFILT_VNODE && s->present) vn = true;
    errno = 0;
    if (vn) {
        // file events arrive one change at a time and internal wakeups may produce empty rounds:
        // drain completely, then everything that must be reported has been reported
        int zeros = 0, total = 0;
        bool save = check_min; check_min = false;
        while (zeros < 1 && total < 64) {
            memset(out, 0x77, sizeof out);
            int r = call(kq, nullptr, 0, out, k, &z);
            int e = errno;
            check_rt("collect");
            if (r < 0) { check_min = save; fail("collect failed with errno %d", e); }
            if (r == 0) zeros++; else zeros = 0;
            total++;
            try { process_events(kq, out, r, k, "collect"); } catch (...) { check_min = save; throw; }
        }
        check_min = save;
        for (auto &s : slots) if (s->kq == kq && s->filt == EVFILT_VNODE && s->present && s->enabled) {
            if (s->vmust) fail("%s: change %#x was requested and happened but is never reported", s->name.c_str(), s->vmust);
            s->vmay = 0; auto *v = (VFileObj *)s->obj; s->vnlink = v->nlink; s->vsize = v->size;
        }
        return total;
    }
    int r = call(kq, nullptr, 0, out, k, ts ? ts : &z);
    int e = errno;
    if (!(block && rt::blocked_forever)) check_rt("collect");
    if (r < 0) fail("collect failed with errno %d", e);
    process_events(kq, out, r, k, "collect");
    return r;
}
void World::notify_rd(Obj *o, int side)
{
    for (auto &s : slots) if (s->obj == o && s->present) {
        if (s->side == side && s->filt == EVFILT_READ) {
            if (o->is_file() && !strict) { if (s->edge == NO) s->edge = MAY; }      // known finding F-FILE-CLEAR
            else s->edge = MUST;
        }
        // a descriptor registered for both directions: news for one may repeat the other
        if (o->fd(s->side) == o->fd(side) && s->filt == EVFILT_WRITE && s->edge == NO) s->edge = MAY;
    }
}
void World::notify_rd_may(Obj *o, int side)
{
    for (auto &s : slots) if (s->obj == o && s->present && s->side == side && s->filt == EVFILT_READ && s->edge == NO) s->edge = MAY;
}
void World::notify_wr(Obj *o, int side, bool must)
{
    for (auto &s : slots) if (s->obj == o && s->present) {
        if (s->side == side && s->filt == EVFILT_WRITE) { if (must) s->edge = MUST; else if (s->edge == NO) s->edge = MAY; }
        if (o->fd(s->side) == o->fd(side) && s->filt == EVFILT_READ && s->edge == NO) s->edge = MAY;
    }
}
void World::vnode_change(Obj *o, uint32_t must, uint32_t may)
{
    auto *v = (VFileObj *)o;
    for (auto &s : slots) if (s->obj == o && s->filt == EVFILT_VNODE && s->present && s->enabled) {
        uint32_t m = must & s->cfg_ff, y = (may | must) & s->cfg_ff;
        // link count and size are compared when the change is examined: a change undone before that need not be seen
        if (must & NOTE_LINK && v->nlink == s->vnlink) { m &= ~NOTE_LINK; s->vmust &= ~NOTE_LINK; }
        if (must & NOTE_EXTEND && v->size <= s->vsize) m &= ~NOTE_EXTEND;
        if (v->size <= s->vsize) s->vmust &= ~NOTE_EXTEND;
        if (v->nlink == s->vnlink) s->vmust &= ~NOTE_LINK;
        if ((s->cfg_ff & NOTE_WRITE) && ((must | may) & NOTE_EXTEND)) y |= NOTE_EXTEND;
        if (s->vstale) y |= s->cfg_ff & (NOTE_EXTEND | NOTE_LINK), y |= (s->cfg_ff & NOTE_WRITE) ? NOTE_EXTEND : 0;
        if (v->deleted) y |= s->cfg_ff & (NOTE_DELETE | NOTE_LINK);
        s->vmust |= m; s->vmay |= y;
    }
}
void World::begin()
{
    rt::faults_seen.clear(); rt::blocked_forever = false;
    rt::vclock_reset();
    hist.clear();
    sigpend.clear(); sigblocked.clear(); handled.clear();
    base = rt::ledger();
    static bool freed = false;
    if (free0 && !freed) { freed = true; close(0); }
    for (auto &o : objs) o->setup();
    kqs.clear();
    for (int i = 0; i < nkq; i++) {
        if (i && kq_far) rt::pipe_at = kqs[0] + i * kq_far;
        int k = rt::kq_open();
        if (i && kq_far && k != kqs[0] + i * kq_far) fail("environment: the kqueue is not where it should be");
        if (k < 0) fail("kqueue() failed, errno %d", errno);
        kqs.push_back(k);
    }
    empty = rt::ledger();
    for (auto &s : slots) s->removed();
    expected_fail = 0;
    if (on_begin) on_begin();
}
// Waiting for the library's own thread: 5 s in which it does nothing, or 120 s in all
struct Patience {
    int n = 0; double t0 = 0, idle = 0, last = 0;
    static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
    bool wait()
    {
        if (n++ < 200) { sched_yield(); return true; }
        usleep(n < 1000 ? 50 : 500);
        double t = now();
        if (!t0) t0 = last = t;
        if (!rt::closing) idle += t - last;
        last = t;
        return idle < 5 && t - t0 < 120;
    }
};
void World::close_kq(int i)
{
    long n = rt::ledger_kind("epoll");
    for (auto &s : slots) if (s->kq == i) s->removed();
    rt::kq_close(kqs[i]);
    kqs[i] = -1;
    // the library releases a closed kqueue in its own time
    Patience p;
    while (rt::ledger_kind("epoll") >= n && p.wait()) {}
}
void World::reopen_kq(int i)
{
    if (kq_far && kqs[!i] >= 0) rt::pipe_at = i ? kqs[0] + kq_far : kqs[1] - kq_far;
    kqs[i] = rt::kq_open();
    if (kqs[i] < 0) fail("kqueue() failed, errno %d", errno);
}
static bool wait_ledger(rt::Ledger want)
{
    Patience p;
    do {
        rt::Ledger l = rt::ledger();
        if (l.fds == want.fds && l.blocks == want.blocks) return true;
    } while (p.wait());
    return false;
}
void World::end()
{
    if (on_end) on_end();
    std::string why;
    if (check_ledger && !rt::ledger_check_cloexec(why)) fail("%s", why.c_str());
    // half of the histories (by parity) end with explicit deletes, the others leave it to close
    bool all_open = true;
    for (int k : kqs) if (k < 0) all_open = false;
    if (check_ledger && all_open && hist.size() % 2 == 0) {
        int st = style; style = 0;
        for (auto &s : slots) if (s->present) change(s.get(), EV_DELETE, 0, 0, s->udata);
        style = st;
        rt::Ledger l = rt::ledger();
        if (l.fds != empty.fds || l.blocks != empty.blocks)
            fail("after deleting every registration the kqueue holds %ld descriptors and %ld heap blocks, an empty one %ld and %ld (%s)", l.fds, l.blocks, empty.fds, empty.blocks, rt::ledger_detail().c_str());
    }
    for (auto &s : slots) s->removed();
    for (int k : kqs) if (k >= 0) rt::kq_close(k);
    kqs.clear();
    bool ok = wait_ledger(base);
    for (auto &o : objs) o->teardown();
    check_rt("close");
    if (!ok) {
        rt::Ledger l = rt::ledger();
        fail("after closing the kqueue the library still holds %ld descriptors and %ld heap blocks (before: %ld, %ld; %s)", l.fds, l.blocks, base.fds, base.blocks, rt::ledger_detail().c_str());
    }
}
void World::exec(int i) { hist.push_back(i); ops[i].run(); }
uint64_t World::hash()
{
    Hash h;
    for (auto &o : objs) o->hash(h);
    for (auto &s : slots) s->hash(h);
    for (int k : kqs) h.add(k >= 0);
    int n = hist.size();
    for (int i = n - hist_in_hash; i < n; i++) if (i >= 0) h.add(hist[i] + 1);
    if (extra_hash) extra_hash(h);
    h.add(n % 2);
    return h.h;
}

// ================================================================ op builders
static unsigned mode_flags(int m)
{
    return EV_ADD | (m & M_ONESHOT ? EV_ONESHOT : 0) | (m & M_DISPATCH ? EV_DISPATCH : 0) | (m & M_CLEAR ? EV_CLEAR : 0) | (m & M_DIS ? EV_DISABLE : 0) | (m & M_ENA ? EV_ENABLE : 0) | (m & M_SYS ? EV_EOF | EV_ERROR | EV_FLAG1 : 0);
}
static std::string mode_name(int m)
{
    std::string s;
    if (m & M_ONESHOT) s += "|oneshot"; if (m & M_DISPATCH) s += "|dispatch"; if (m & M_CLEAR) s += "|clear"; if (m & M_DIS) s += "|disabled"; if (m & M_UD2) s += "|udata2"; if (m & M_ENA) s += "|enable"; if (m & M_SYS) s += "|sysflags"; if (m & M_UD0) s += "|udata0";
    return s;
}
static uintptr_t ud(Slot *s, int m) { return m & M_UD0 ? 0 : (((uintptr_t)(s - (Slot *)0)) >> 4 << 20 | 0xabcd0000000000ull) * 0 + 0x1234500000000ull + (uintptr_t)(s->kq + 1) * 0x10000 + (uintptr_t)(~s->filt) * 0x100 + (s->uid & 0xff) + (m & M_UD2 ? 0x7000000000000ull : 0); }
static uint32_t add_ff(Slot *s) { return s->filt == EVFILT_TIMER ? s->tunit : s->areq; }
// a file that has no name any more cannot be watched anew (inotify works on names): not offered
bool nameless(Slot *s) { return (s->filt == EVFILT_VNODE && s->obj && ((VFileObj *)s->obj)->deleted) || (s->filt == EVFILT_PROC && s->obj && ((ChildObj *)s->obj)->reaped); }
void op_add(World *w, Slot *s, int m)
{
    w->op(s->name + ".add" + mode_name(m), [=] { return !s->present && !nameless(s); }, [=] { w->change(s, mode_flags(m), add_ff(s), s->per, ud(s, m)); });
}
void op_readd(World *w, Slot *s, int m)
{
    w->op(s->name + ".readd" + mode_name(m), [=] { return s->present && !nameless(s) && (s->filt == EVFILT_TIMER || (s->oneshot == !!(m & M_ONESHOT) && (!s->oneshot || !(m & M_DISPATCH)) && s->clear == !!(m & M_CLEAR))); },
          [=] { w->change(s, mode_flags(m), add_ff(s), s->per, ud(s, m)); });
}
void op_enable(World *w, Slot *s) { w->op(s->name + ".enable", [=] { return !(nameless(s) && s->present && !s->enabled); }, [=] { w->change(s, EV_ENABLE, add_ff(s), s->per, s->udata); }); }
void op_disable(World *w, Slot *s) { w->op(s->name + ".disable", [] { return true; }, [=] { w->change(s, EV_DISABLE, add_ff(s), s->per, s->udata); }); }
void op_delete(World *w, Slot *s) { w->op(s->name + ".delete", [] { return true; }, [=] { w->change(s, EV_DELETE, 0, 0, s->udata); }); }
void op_collect(World *w, int kq, int k) { w->op(fmt("kq%d.collect%d", kq, k), [] { return true; }, [=] { w->collect(kq, k); }); }
void op_adv(World *w, int64_t ns) { w->op(fmt("advance%ldus", (long)(ns / 1000)), [=] { return rt::vnow < 1002LL * 1000000000; }, [=] { rt::vclock_advance(ns); }); }
void op_change(World *w, Slot *s, std::string nm, unsigned flags, uint32_t ff, int64_t data, std::function<bool()> pre)
{
    w->op(s->name + "." + nm, pre ? pre : [] { return true; }, [=] { w->change(s, flags, ff, data, ud(s, flags & EV_ADD ? M_UD2 : 0)); });
}
void op_drain1(World *w, int kq)
{
    // one event at a time until everything pending at the start has been seen
    w->op(fmt("kq%d.drain1", kq), [] { return true; }, [=] {
        std::vector<Slot *> want; std::map<Slot *, bool> seen;
        int regs = 0;
        for (auto &s : w->slots) if (s->kq == kq) { if (s->present) regs++; if (s->ready() == MUST) want.push_back(s.get()); }
        w->on_event = [&](Slot *s) { seen[s] = true; };
        try { for (int i = 0; i < 4 * regs + 4; i++) if (w->collect(kq, 1) == 0) break; } catch (...) { w->on_event = nullptr; throw; }
        w->on_event = nullptr;
        for (Slot *s : want) if (!seen[s] && s->present && s->enabled) fail("%s was pending but %d calls with room for one event never returned it", s->name.c_str(), 4 * regs + 4);
    });
}
// A call during which the outside world acts once, right before the j-th system call the library makes.
// What the call reports has to be true before or after that, what is true both times must be reported,
// a call with a timeout returns nothing only when its time is over, and nothing that happened after the
// report was made is lost.
static int outq(Slot *s) { int q = 0; if (s->filt == EVFILT_WRITE && !s->obj->is_file() && ioctl(s->obj->fd(s->side), SIOCOUTQ, &q) < 0) q = 0; return q; }
struct Snap {
    Tri t; long data; bool eof, mark; int q;
    Snap(Slot *s) : t(s->ready()), data(0), eof(false), mark(s->obj && s->obj->at_mark()), q(0)
    {
        if (!s->obj) return;
        if (s->filt == EVFILT_READ) data = s->obj->rd_data(s->side), eof = s->obj->rd_eof(s->side);
        if (s->filt == EVFILT_WRITE) q = outq(s), eof = s->obj->wr_eof(s->side);
    }
};
void op_mid(World *w, int kq, int k, int j, Op e, int64_t tmo)
{
    w->op(fmt("kq%d.collect%d.%ldns@%d:%s", kq, k, (long)tmo, j, e.name.c_str()), e.pre, [=] {
        std::vector<Slot *> ss; std::vector<Snap> a, b; std::vector<Tri> note;
        std::map<Obj *, int> err0;
        for (auto &s : w->slots) if (s->kq == kq) { ss.push_back(s.get()); a.emplace_back(s.get()); note.push_back(NO); if (s->obj && s->obj->sockerr()) err0[s->obj] = *s->obj->sockerr(); }
        rt::mid_no = 0; rt::mid_at = j;
        bool done = false;
        std::string bad;
        rt::mid_f = [&] {
            std::vector<Tri> save;
            for (auto *s : ss) { save.push_back(s->edge); s->edge = NO; }
            rt::mid_busy = true;
            try { e.run(); } catch (Fail &f) { bad = f.what(); }
            rt::mid_busy = false;
            for (size_t i = 0; i < ss.size(); i++) { note[i] = ss[i]->edge; if (save[i] > ss[i]->edge) ss[i]->edge = save[i]; }
            done = true;
        };
        struct timespec ts = { tmo / 1000000000, tmo % 1000000000 };
        struct kevent out[8];
        int64_t v0 = rt::vnow;
        w->sigtook = 0;
        errno = 0;
        int r = w->call(kq, nullptr, 0, out, k, &ts);
        int er = errno;
        rt::mid_at = -1;
        if (!bad.empty()) fail("%s", bad.c_str());
        w->check_rt("collect");
        if (r < 0) fail("collect failed with errno %d", er);
        for (auto *s : ss) b.emplace_back(s);
        int must = 0;
        for (size_t i = 0; i < ss.size(); i++) {
            if (a[i].t == MUST && b[i].t == MUST) must++;
            if (r == 0 && tmo && b[i].t == MUST) fail("nothing returned at the end of the timeout although %s is pending", ss[i]->name.c_str());
        }
        if (r < (must < k ? must : k)) fail("%d events returned but %d are pending all the time (list of %d)", r, must, k);
        if (r == 0 && rt::vnow - v0 != tmo) fail("nothing returned after %ld ns, the timeout is %ld ns", (long)(rt::vnow - v0), (long)tmo);
        if (r > 0 && rt::vnow - v0 > tmo) fail("returned after %ld ns, the timeout is %ld ns", (long)(rt::vnow - v0), (long)tmo);
        std::vector<bool> got(ss.size());
        for (int n = 0; n < r; n++) {
            const struct kevent &v = out[n];
            size_t i = 0;
            while (i < ss.size() && !(ss[i]->filt == v.filter && ss[i]->ident() == v.ident)) i++;
            if (i == ss.size()) fail("event for something never registered here: %s", kev_str(v).c_str());
            Slot *s = ss[i];
            if (!s->present || !s->enabled) fail("event for %s, which is not registered and enabled: %s", s->name.c_str(), kev_str(v).c_str());
            if (a[i].t == NO && b[i].t == NO) fail("event for %s, whose condition holds neither before nor after: %s", s->name.c_str(), kev_str(v).c_str());
            if (got[i]) fail("%s is reported twice in one call", s->name.c_str());
            got[i] = true;
            bool eof = v.flags & EV_EOF, old = false;
            if (s->filt == EVFILT_READ || s->filt == EVFILT_WRITE) {
                if ((uintptr_t)v.udata != s->udata || (v.flags & EV_ERROR)) fail("%s: bad event %s", s->name.c_str(), kev_str(v).c_str());
                int *pe = s->obj->sockerr();
                if (eof != a[i].eof && eof != b[i].eof && !(pe && (err0[s->obj] || *pe))) fail("%s: EOF flag %s (%s)", s->name.c_str(), eof ? "set" : "missing", kev_str(v).c_str());
                long x = s->filt == EVFILT_READ ? a[i].data : a[i].q, y = s->filt == EVFILT_READ ? b[i].data : b[i].q;
                if (s->filt == EVFILT_READ && s->obj->is_listen()) { if (v.data < 1 && !(a[i].t == NO || b[i].t == NO)) fail("%s: pending connection reported with data=%ld", s->name.c_str(), (long)v.data); }
                else if (v.data != x && v.data != y && !((a[i].mark || b[i].mark) && v.data == 0) && !(s->filt == EVFILT_WRITE && eof && v.data == 0)) fail("%s: data=%ld but it is %ld before and %ld after", s->name.c_str(), (long)v.data, x, y);
                if (v.fflags && !eof && !(pe && (v.fflags == (uint32_t)err0[s->obj] || v.fflags == (uint32_t)*pe))) fail("%s: unexpected fflags %u", s->name.c_str(), v.fflags);
                if (pe && v.fflags == (uint32_t)*pe) *pe = 0;
                old = (x != y || a[i].eof != b[i].eof) && v.data == x && eof == a[i].eof && !b[i].mark;
            } else if (s->filt == EVFILT_SIGNAL) {
                s->check(v);
            } else s->check(v);
            s->delivered(v);
            if (note[i] != NO && s->present && s->clear) s->edge = note[i] == MUST && old ? MUST : MAY;
            if (s->filt == EVFILT_SIGNAL && done) {
                sigset_t p; sigpending(&p);
                if ((int)s->uid < SIGRTMIN) w->sigpend[s->uid] = sigismember(&p, s->uid);
                else if (w->sigtook == (int)s->uid) {      // the program took one meanwhile: the one reported may be that one or another one
                    sigset_t m; sigemptyset(&m); sigaddset(&m, s->uid);
                    struct timespec z = { 0, 0 };
                    int c = 0, want = w->sigpend[s->uid];
                    while (sigtimedwait(&m, nullptr, &z) > 0) c++;
                    for (int x = 0; x < c; x++) kill(getpid(), s->uid);
                    if (c != want && c != want + 1) fail("%d occurrences of signal %d are left, expected %d or %d", c, (int)s->uid, want, want + 1);
                    w->sigpend[s->uid] = c;
                }
            }
        }
    });
}
void op_trigger(World *w, Slot *s, uint32_t ctrl, uint32_t val, bool trig)
{
    w->op(fmt("%s.user%s%x:%x", s->name.c_str(), trig ? "!" : "", ctrl >> 30, val), [] { return true; },
          [=] { w->change(s, s->present && s->dispatch ? EV_ADD | EV_DISPATCH : 0, ctrl | val | (trig ? NOTE_TRIGGER : 0), 0, s->udata); });
}
std::vector<WorldDef> &world_defs() { static std::vector<WorldDef> v; return v; }
