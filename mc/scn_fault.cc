// C19: every resource-type failure of every call the library makes, at every position of a script.
#include <sys/stat.h>
#include "sched.h"
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/wait.h>

namespace {
const struct timespec T20 = { 0, 20000000 };
bool live = false;
std::vector<rt::Inject> plan;
long seen_inj = 0;
void faults_start() { plan = rt::injects; rt::fault_begin(plan, true); live = true; }
void faults_pause() { rt::fault_end(); }
void faults_resume();
}
namespace rt { void fault_resume(); }
namespace {
void faults_resume() { if (live) rt::fault_resume(); }
void faults_stop()
{
    rt::fault_end();
    live = false;
    R->ncalls = std::min<long>(rt::calls.size(), 600);
    for (long i = 0; i < R->ncalls; i++) R->calls[i] = rt::calls[i];
}
bool fresh_fault() { bool f = rt::injected > seen_inj; seen_inj = rt::injected; return f; }
struct Quiet { Quiet() { faults_pause(); } ~Quiet() { faults_resume(); } };

enum Kind { USER, PIPE, SOCKW, SOCKRW, FILER, TIMER, SIGNAL, PROC, VNODE, NKIND };
const char *kname[] = { "user", "pipe", "sockw", "sockrw", "file", "timer", "signal", "proc", "vnode" };
struct Target {
    Kind k; int p[2]; std::string path; pid_t child = 0; int cp[2];
    uintptr_t id; short filt; unsigned ff = 0; long data = 0;
    void setup(Kind kk)
    {
        k = kk;
        p[0] = p[1] = -1;
        switch (k) {
        case USER: id = 7; filt = EVFILT_USER; break;
        case PIPE: if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) sfail("harness pipe"); id = p[0]; filt = EVFILT_READ; break;
        case SOCKW: case SOCKRW: if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, p)) sfail("harness socketpair"); id = p[0]; filt = k == SOCKW ? EVFILT_WRITE : EVFILT_READ; break;
        case FILER: case VNODE:
            path = sf("f%d", (int)getpid());
            p[0] = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
            if (p[0] < 0) sfail("harness file");
            if (k == FILER) { unlink(path.c_str()); if (write(p[0], "abc", 3) != 3) sfail("harness write"); lseek(p[0], 0, SEEK_SET); }
            id = p[0]; filt = k == FILER ? EVFILT_READ : EVFILT_VNODE; if (k == VNODE) ff = NOTE_ATTRIB | NOTE_WRITE | NOTE_DELETE;
            break;
        case TIMER: id = 3; filt = EVFILT_TIMER; data = 10; break;
        case SIGNAL: id = SIGUSR1; filt = EVFILT_SIGNAL; break;
        case PROC: {
            if (pipe2(cp, O_CLOEXEC)) sfail("harness pipe");
            child = fork();
            if (child == 0) { char c; close(cp[1]); signal(SIGALRM, SIG_DFL); alarm(60); (void)!read(cp[0], &c, 1); _exit(3); }
            close(cp[0]);
            id = child; filt = EVFILT_PROC; ff = NOTE_EXIT;
            break;
        }
        default: break;
        }
    }
    void ready(int kq)
    {
        switch (k) {
        case USER: { Quiet q; int r = chg(kq, 7, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)0x77); need(r == 0, "trigger failed with errno %d", r); break; }
        case PIPE: { char c = 1; if (write(p[1], &c, 1) != 1) sfail("harness write"); break; }
        case SOCKRW: { char c = 1; if (write(p[1], &c, 1) != 1) sfail("harness write"); break; }
        case TIMER: rt::vclock_advance(10000000); break;
        case SIGNAL: kill(getpid(), SIGUSR1); break;
        case PROC: { if (cp[1] >= 0) { close(cp[1]); cp[1] = -1; } siginfo_t si; if (waitid(P_PID, child, &si, WEXITED | WNOWAIT)) sfail("harness waitid"); break; }
        case VNODE: fchmod(p[0], 0600); break;
        default: break;
        }
    }
    void unready()
    {
        char c[8];
        if (k == PIPE || k == SOCKRW) (void)!read(p[0], c, 1);
    }
    void teardown() { if (child) { if (cp[1] >= 0) close(cp[1]); kill(child, SIGKILL); waitpid(child, nullptr, 0); } if (!path.empty()) unlink(path.c_str()); }
};
// witnesses: registrations that must not notice anything
struct Witness {
    int a = -1, b = -1, p[2];
    void setup()
    {
        if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) sfail("harness pipe");
        char c = 1; if (write(p[1], &c, 1) != 1) sfail("harness write");
        b = rt::kq_open();
        need(b >= 0, "kqueue() failed");
        need(chg(b, p[0], EVFILT_READ, EV_ADD, 0, 0, (void *)0x99) == 0, "witness add");
    }
    void attach(int kq) { a = kq; need(chg(a, 99, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, (void *)0x98) == 0, "adding another registration failed"); }
    void check(const char *when, bool own = true)
    {
        Quiet q;
        struct kevent ev[8];
        int n = get(b, ev, 8);
        need(n == 1 && ev[0].udata == (void *)0x99, "%s: another kqueue reports %d events instead of 1", when, n);
        if (a >= 0 && own) {
            int r = chg(a, 99, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)0x98);
            need(r == 0, "%s: another registration of the kqueue is gone (errno %d)", when, r);
            n = get(a, ev, 8);
            bool f = false;
            for (int i = 0; i < n; i++) if (ev[i].udata == (void *)0x98) f = true;
            need(f, "%s: another registration of the kqueue is no longer reported", when);
        }
    }
};
rt::Ledger led() { return rt::ledger(); }
void same(rt::Ledger x, const char *when)
{
    rt::Ledger y = led();
    bool first = x.fds == 0 && x.blocks == 0;   // the process-wide table is allocated once and kept
    need(x.fds == y.fds && (x.blocks == y.blocks || (first && y.blocks == 1)), "%s: leaked fds %ld -> %ld, blocks %ld -> %ld (%s)", when, x.fds, y.fds, x.blocks, y.blocks, rt::ledger_detail().c_str());
}
int open_retry(Witness *w)
{
    for (int i = 0; i < 4; i++) {
        rt::Ledger l = led();
        int st;
        errno = 0;
        int kq = rt::kq_open();
        int e = errno;
        pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &st);
        need(st == PTHREAD_CANCEL_ENABLE, "kqueue() left cancellation disabled");
        bool f = fresh_fault();
        check_rt("kqueue()");
        if (kq >= 0) return kq;
        need(f, "kqueue() failed with errno %d although nothing failed underneath", e);
        need(e == rt::last_err, "kqueue() failed with errno %d, the cause was %d", e, rt::last_err);
        { Quiet q; rt::sched_quiesce(); }
        same(l, "failed kqueue()");
        if (w) w->check("after a failed kqueue()");
    }
    sfail("kqueue() keeps failing");
}
struct Run {
    Target t; Witness w; int kq; unsigned mode; bool rcpt;
    // one change; returns when it has succeeded
    void change(unsigned flags, const char *what, short filt)
    {
        for (int i = 0; i < 4; i++) {
            rt::Ledger l = led();
            struct kevent k, ev[2];
            EV_SET(&k, t.id, filt, flags | (rcpt ? EV_RECEIPT : 0), t.ff, t.data, (void *)0x77);
            errno = 0;
            int r = rt::kq_event(kq, &k, 1, rcpt ? ev : nullptr, rcpt ? 1 : 0, &ZT);
            int e = errno;
            bool f = fresh_fault();
            check_rt(what);
            if (rcpt) { if (r == 1) { need(ev[0].flags & EV_ERROR, "%s: no receipt", what); if (ev[0].data) { e = ev[0].data; r = -1; } else r = 0; } else { need(r == -1, "%s returned %d", what, r); } }
            if (r == 0) return;
            need(f, "%s failed with errno %d although nothing failed underneath", what, e);
            need(e != 0, "%s failed without an errno", what);
            w.check(sf("after a failed %s", what).c_str());
            if (flags & EV_ADD) {
                Quiet q;
                int d = chg(kq, t.id, filt, EV_DELETE);
                need(d == ENOENT, "a failed add left a registration behind (delete returned %d)", d);
                same(l, "failed add");
            }
        }
        sfail("%s keeps failing", what);
    }
    void collect(int want, const char *when, const struct timespec *ts = &ZT)
    {
        for (int i = 0; i < 4; i++) {
            struct kevent ev[8];
            int n = get(kq, ev, 8, ts);
            bool f = fresh_fault();
            check_rt(when);
            if (n < 0) { need(f, "%s: collecting failed with errno %d although nothing failed underneath", when, -n); w.check(when, false); continue; }
            int g = 0;
            for (int j = 0; j < n; j++) {
                if (ev[j].udata == (void *)0x98) continue;
                need(ev[j].udata == (void *)0x77 && ev[j].ident == t.id && !(ev[j].flags & EV_ERROR), "%s: unexpected event ident %lu filter %d flags %#x", when, (unsigned long)ev[j].ident, ev[j].filter, ev[j].flags);
                g++;
            }
            if (g != want && f) continue;
            need(g == want, "%s: %d events instead of %d", when, g, want);
            return;
        }
        sfail("%s: collecting keeps failing", when);
    }
};
void filter_body(Kind k, unsigned mode, bool rcpt, bool cold)
{
    static Run r;
    r.mode = mode; r.rcpt = rcpt;
    r.t.setup(k);
    if (k == SIGNAL) { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGUSR1); sigprocmask(SIG_BLOCK, &s, nullptr); }
    r.w.setup();
    rt::Ledger l00 = led();
    if (cold) faults_start();
    r.kq = open_retry(&r.w);
    { Quiet q; r.w.attach(r.kq); }
    rt::Ledger l0 = led();
    if (!cold) faults_start();
    short f = r.t.filt;
    bool rw = k == SOCKRW;
    r.change(EV_ADD | mode, "add", f);
    if (rw) r.change(EV_ADD, "add of the second filter", EVFILT_WRITE);
    if (k == SIGNAL || k == TIMER || k == PIPE || k == USER) r.collect(rw ? 1 : 0, "nothing pending");
    r.t.ready(r.kq);
    r.collect(rw ? 2 : 1, "after the condition arose", k == PIPE || k == TIMER ? &T20 : &ZT);
    if (k == PROC) {
        r.t.unready();
    } else if (mode & EV_ONESHOT) {
        { Quiet q; int d = chg(r.kq, r.t.id, f, EV_DELETE); need(d == ENOENT, "one-shot registration still there (delete returned %d)", d); }
        r.change(EV_ADD | mode, "second add", f);
        r.change(EV_DELETE, "delete", f);
    } else {
        r.change(EV_DISABLE, "disable", f);
        if (rw) r.collect(1, "READ disabled, WRITE ready");
        r.t.unready();
        r.change(EV_ENABLE, "enable", f);
        if (k != VNODE) r.t.ready(r.kq); else { Quiet q; fchmod(r.t.p[0], 0600); }
        r.collect(rw ? 2 : 1, "after enable");
        if (k != VNODE && k != FILER) {
            { for (int i = 0; i < 3; i++) { struct kevent kv; EV_SET(&kv, r.t.id, f, EV_ADD | mode, r.t.ff, r.t.data, (void *)0x77); int rr = rt::kq_event(r.kq, &kv, 1, nullptr, 0, &ZT); bool ff = fresh_fault(); check_rt("re-add"); if (rr == 0) break; need(ff, "re-add failed with errno %d", errno); r.w.check("after a failed re-add"); } }
            r.t.ready(r.kq);
            r.collect(rw ? 2 : 1, "after re-add");
        }
        r.change(EV_DELETE, "delete", f);
        if (rw) { r.collect(1, "READ deleted, WRITE ready"); r.change(EV_DELETE, "delete of the second filter", EVFILT_WRITE); }
    }
    r.collect(0, "after delete");
    faults_stop();
    { int d = chg(r.kq, r.t.id, f, EV_DELETE); need(d == ENOENT, "registration still there at the end (delete returned %d)", d); }
    same(l0, "empty kqueue at the end");
    r.w.check("at the end");
    rt::kq_close(r.kq);
    r.w.a = -1;
    rt::sched_quiesce();
    check_rt("close");
    same(l00, "kqueue closed");
    r.w.check("after close");
    r.t.teardown();
}
// creation in a process that never used the library, and repeatedly
void open_body(int n, bool closing)
{
    faults_start();
    std::vector<int> ks;
    for (int i = 0; i < n; i++) {
        int k = open_retry(nullptr);
        ks.push_back(k);
        { Quiet q;
          struct kevent ev[2];
          need(get(k, ev, 2) == 0, "a new kqueue is not empty");
          need(chg(k, 5, EVFILT_USER, EV_ADD, 0, 0, (void *)0x55) == 0, "add failed");
          need(chg(k, 5, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)0x55) == 0, "trigger failed");
          need(get(k, ev, 2) == 1, "a new kqueue does not work");
        }
        if (closing) { Quiet q; rt::kq_close(k); rt::sched_quiesce(); ks.clear(); }
    }
    faults_stop();
    for (int k : ks) { struct kevent ev[2]; need(get(k, ev, 2) == 1, "kqueue lost its registration"); rt::kq_close(k); }
    rt::sched_quiesce();
    check_rt("close");
    need(rt::ledger().fds == 0, "descriptors left: %s", rt::ledger_detail().c_str());
}
// calls before the library was ever initialised, then creation
void early_body(int how)
{
    struct kevent k, ev[2];
    int p[2];
    if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) sfail("harness pipe");
    EV_SET(&k, 1, EVFILT_USER, EV_ADD, 0, 0, nullptr);
    faults_start();
    for (int fd : { p[0], -1, 1000000 }) {
        errno = 0;
        int r = rt::kq_event(fd, how & 1 ? &k : nullptr, how & 1, ev, how & 2 ? 2 : 0, &ZT);
        need(r == -1 && (errno == ENOENT || errno == EBADF || errno == EINVAL), "kevent() on descriptor %d, which is no kqueue, returned %d (errno %d)", fd, r, errno);
        check_rt("kevent() before kqueue()");
    }
    int q = open_retry(nullptr);
    faults_stop();
    need(chg(q, 5, EVFILT_USER, EV_ADD, 0, 0, nullptr) == 0 && chg(q, 5, EVFILT_USER, 0, NOTE_TRIGGER) == 0 && get(q, ev, 2) == 1, "the first kqueue does not work");
}
// descriptors beyond the limit the library knew when it started
void limit_body()
{
    rt::rlim_override = 32;
    int k = rt::kq_open();
    need(k >= 0, "kqueue() failed");
    need(chg(k, 5, EVFILT_USER, EV_ADD, 0, 0, nullptr) == 0, "add");
    std::vector<int> pad;
    int fd;
    while ((fd = dup(2)) < 33) pad.push_back(fd);
    close(fd);
    for (int x : pad) (void)x;
    faults_start();
    rt::Ledger l = led();
    errno = 0;
    int k2 = rt::kq_open();
    int e = errno;
    faults_stop();
    check_rt("kqueue()");
    if (k2 < 0) { need(e != 0, "kqueue() failed without an errno"); rt::sched_quiesce(); same(l, "failed kqueue()"); }
    struct kevent ev[2];
    need(chg(k, 5, EVFILT_USER, 0, NOTE_TRIGGER) == 0 && get(k, ev, 2) == 1, "the other kqueue no longer works");
}
// several changes in one call: one fails, the others take effect, each is answered for itself
void batch_body(int order)
{
    static Witness w;
    w.setup();
    int kq = rt::kq_open();
    w.attach(kq);
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv)) sfail("harness socketpair");
    char c = 1; if (write(sv[1], &c, 1) != 1) sfail("harness write");
    rt::Ledger l0 = led();
    struct kevent k[4], ev[4];
    EV_SET(&k[0], 5, EVFILT_USER, EV_ADD | EV_RECEIPT, 0, 0, (void *)1);
    EV_SET(&k[1], sv[0], EVFILT_READ, EV_ADD | EV_RECEIPT, 0, 0, (void *)2);
    EV_SET(&k[2], 6, EVFILT_TIMER, EV_ADD | EV_RECEIPT, 0, 10, (void *)3);
    EV_SET(&k[3], sv[0], EVFILT_WRITE, EV_ADD | EV_RECEIPT, 0, 0, (void *)4);
    if (order) { std::swap(k[0], k[3]); std::swap(k[1], k[2]); }
    faults_start();
    int n = rt::kq_event(kq, k, 4, ev, 4, &ZT);
    bool f = fresh_fault();
    faults_stop();
    check_rt("batch");
    need(n == 4, "4 changes with receipts returned %d (errno %d)", n, errno);
    int bad = 0;
    for (int i = 0; i < 4; i++) {
        need(ev[i].ident == k[i].ident && ev[i].filter == k[i].filter && ev[i].udata == k[i].udata && (ev[i].flags & EV_ERROR), "receipt %d does not match its change", i);
        if (ev[i].data) bad++;
    }
    need(bad <= (int)rt::injected && (!bad || f), "%d changes failed after %d failures underneath", bad, rt::injected);
    rt::vclock_advance(10000000);
    struct kevent o[8];
    int ok5 = 0;
    for (int i = 0; i < 4; i++) if (!ev[i].data && k[i].filter == EVFILT_USER) { ok5 = 1; need(chg(kq, 5, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)1) == 0, "trigger"); }
    (void)ok5;
    int m = get(kq, o, 8);
    for (int i = 0; i < 4; i++) {
        int cnt = 0;
        for (int j = 0; j < m; j++) if (o[j].udata == k[i].udata) cnt++;
        need(cnt == (ev[i].data ? 0 : 1), "change %d answered %ld but %d events are reported", i, (long)ev[i].data, cnt);
    }
    w.check("after a partially failed call");
    for (int i = 0; i < 4; i++) { int d = chg(kq, k[i].ident, k[i].filter, EV_DELETE); need(d == (ev[i].data ? ENOENT : 0), "delete %d returned %d", i, d); }
    same(l0, "after deleting everything");
    rt::kq_close(kq);
    rt::sched_quiesce();
    check_rt("close");
}
RegFam f1("fault", true, [](std::vector<Scn> &v, int l) {
    for (int n = 1; n <= 2; n++) for (int c = 0; c < 2; c++) v.push_back({ sf("open/%d/%d", n, c), [=] { open_body(n, c); } });
    for (int h = 0; h < 4; h++) v.push_back({ sf("early/%d", h), [=] { early_body(h); } });
    v.push_back({ "limit", limit_body });
    for (int o = 0; o < 2; o++) v.push_back({ sf("batch/%d", o), [=] { batch_body(o); } });
    for (int k = 0; k < NKIND; k++) for (unsigned m : { 0u, (unsigned)EV_ONESHOT, (unsigned)EV_DISPATCH }) for (int rc = 0; rc < 2; rc++) {
        if (k == SOCKRW && m) continue;
        if (k == PROC && m) continue;
        if (m == EV_DISPATCH) continue;
        v.push_back({ sf("%s/%u/%d", kname[k], m, rc), [=] { filter_body((Kind)k, m, rc, rc == 0); } });
    }
});
// one of the library's descriptors is number 0
void fork0_body(int opt)
{
    faults_start();
    int a = open_retry(nullptr), b = open_retry(nullptr);
    faults_stop();
    need(chg(a, 5, EVFILT_USER, EV_ADD, 0, 0, (void *)0x55) == 0 && chg(b, 5, EVFILT_USER, EV_ADD, 0, 0, (void *)0x56) == 0, "add failed");
    if (opt) { rt::kq_close(a); rt::sched_quiesce(); a = rt::kq_open(); need(a >= 0 && chg(a, 5, EVFILT_USER, EV_ADD, 0, 0, (void *)0x55) == 0, "reopening failed"); }
    struct kevent ev[2];
    pid_t c = rt::lib_fork();
    if (c == 0) {
        alarm(20);
        need(fcntl(a, F_GETFD) < 0 && fcntl(b, F_GETFD) < 0, "the child still holds a kqueue descriptor of the parent");
        for (const char *k : { "epoll", "pipe-r", "pipe-w" }) need(rt::ledger_kind(k) == 0, "the child still holds %ld %s descriptors of the parent's kqueues (%s)", rt::ledger_kind(k), k, rt::ledger_detail().c_str());
        long held = led().fds;
        int k = rt::kq_open();
        need(k >= 0 && chg(k, 5, EVFILT_USER, EV_ADD, 0, 0, nullptr) == 0 && chg(k, 5, EVFILT_USER, 0, NOTE_TRIGGER) == 0 && get(k, ev, 2) == 1, "a kqueue made in the child does not work");
        rt::kq_close(k);
        rt::sched_quiesce();
        need(led().fds == held, "the child holds %ld descriptors after closing its kqueue, %ld before (%s)", led().fds, held, rt::ledger_detail().c_str());
        check_rt("child");
        rt::lib_exit(0);
    }
    int st;
    while (waitpid(c, &st, 0) < 0) if (errno != EINTR) sfail("harness waitpid");
    need(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the child failed: status %#x", st);
    for (int k : { a, b }) { need(chg(k, 5, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)0x55) == 0 && get(k, ev, 2) == 1, "a kqueue of the parent no longer works"); rt::kq_close(k); }
    rt::sched_quiesce();
    check_rt("close");
    need(led().fds == 0, "descriptors left: %s", rt::ledger_detail().c_str());
}
RegFam f2("fd0", true, [](std::vector<Scn> &v, int) {
    for (int n = 1; n <= 3; n++) for (int c = 0; c < 2; c++) v.push_back({ sf("open/%d/%d", n, c), [=] { open_body(n, c); } });
    for (int o = 0; o < 2; o++) v.push_back({ sf("fork/%d", o), [=] { fork0_body(o); } });
    for (int o = 0; o < 2; o++) v.push_back({ sf("batch/%d", o), [=] { batch_body(o); } });
    for (int k = 0; k < NKIND; k++) for (unsigned m : { 0u, (unsigned)EV_ONESHOT, (unsigned)EV_DISPATCH }) for (int rc = 0; rc < 2; rc++) {
        if ((k == SOCKRW || k == PROC || k == VNODE) && m == EV_DISPATCH) continue;
        if ((k == SOCKRW || k == PROC) && m) continue;
        v.push_back({ sf("%s/%u/%d", kname[k], m, rc), [=] { filter_body((Kind)k, m, rc, rc == 0); } });
    }
});
} // namespace
