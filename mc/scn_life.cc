// C17 (close), C20 (fork), C21 (cancellation), C23 (process exit): the library against its own
// background thread and against other threads.
#include "sched.h"
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/wait.h>

namespace {
int P[2];       // a pipe holding one byte, readable all the time
void mkpipe(int *p) { if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) sfail("harness pipe"); }
void put(int fd) { char c = 1; if (write(fd, &c, 1) != 1) sfail("harness write"); }

struct Kq { int id; int serial; };
int serials = 0;
void *ud(int serial, int which) { return (void *)(uintptr_t)(serial * 10 + which); }

Kq kopen()
{
    Kq k;
    k.id = rt::kq_open();
    need(k.id >= 0, "kqueue() failed with errno %d", errno);
    k.serial = ++serials;
    struct kevent ev[4];
    int n = get(k.id, ev, 4);
    need(n == 0, "a new kqueue is not empty: collect returned %d", n);
    int r = chg(k.id, 1, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, ud(k.serial, 1));
    need(r == 0, "adding to a new kqueue failed with errno %d", r);
    r = chg(k.id, P[0], EVFILT_READ, EV_ADD, 0, 0, ud(k.serial, 2));
    need(r == 0, "adding to a new kqueue failed with errno %d", r);
    return k;
}
void kuse(const Kq &k)
{
    int r = chg(k.id, 1, EVFILT_USER, 0, NOTE_TRIGGER, 0, ud(k.serial, 1));
    need(r == 0, "an open kqueue lost its registration: trigger failed with errno %d", r);
    struct kevent ev[4];
    int n = get(k.id, ev, 4);
    bool u = false, p = false;
    for (int i = 0; i < n; i++) { if (ev[i].udata == ud(k.serial, 1)) u = true; else if (ev[i].udata == ud(k.serial, 2)) p = true; else sfail("an open kqueue reports an event that was never registered on it (udata %p)", ev[i].udata); }
    need(n == 2 && u && p, "an open kqueue reports %d of its 2 pending events", n);
}
void stale(int id, int serial)
{
    // whatever the answer, it must not come from somebody else's kqueue
    struct kevent ev[4];
    int r = chg(id, 5, EVFILT_USER, EV_ADD, 0, 0, ud(serial, 3));
    note(r);
    int n = get(id, ev, 4);
    note(n);
    for (int i = 0; i < n; i++) { long v = (long)(uintptr_t)ev[i].udata / 10; need(v == serial, "a call on a closed kqueue returned an event of another one (udata %p)", ev[i].udata); }
}
struct Env { rt::Ledger l0; long per; };
// leave the library as a program finds it after a few kqueues have come and gone
Env warm()
{
    rt::sched_explore = false;
    mkpipe(P); put(P[1]);
    Env e;
    for (int i = 0; i < 2; i++) {
        Kq k = kopen();
        rt::sched_quiesce();
        long f = rt::ledger().fds;
        rt::kq_close(k.id);
        rt::sched_quiesce();
        e.l0 = rt::ledger();
        e.per = f - e.l0.fds;
    }
    need(e.l0.fds == 0, "descriptors left after closing the only kqueue: %s", rt::ledger_detail().c_str());
    rt::sched_explore = true;
    return e;
}
void finish(Env &e, std::vector<Kq> open)
{
    rt::sched_explore = false;
    rt::sched_quiesce();
    check_rt("run");
    long f = rt::ledger().fds;
    need(f == e.l0.fds + e.per * (long)open.size(), "%zu kqueues are open and idle but the library holds %ld descriptors instead of %ld (%s)", open.size(), f, e.l0.fds + e.per * (long)open.size(), rt::ledger_detail().c_str());
    for (auto &k : open) kuse(k);
    for (auto &k : open) rt::kq_close(k.id);
    rt::sched_quiesce();
    check_rt("closing everything");
    rt::Ledger l = rt::ledger();
    need(l.fds == e.l0.fds && l.blocks == e.l0.blocks, "resources left after closing every kqueue: fds %ld -> %ld, blocks %ld -> %ld (%s)", e.l0.fds, l.fds, e.l0.blocks, l.blocks, rt::ledger_detail().c_str());
    Kq k = kopen();
    kuse(k);
    check_rt("new kqueue");
}
// ------------------------------------------------------------------ histories of one thread
// O open, 0 close oldest, 1 close newest, a use oldest, b use newest, s call on the last closed one,
// g take a descriptor number, q let the background thread catch up
struct Hist {
    std::vector<Kq> open; int last = -1, lastser = 0; std::vector<int> grabbed;
    void step(char c)
    {
        auto cl = [&](size_t i) { last = open[i].id; lastser = open[i].serial; rt::kq_close(open[i].id); open.erase(open.begin() + i); };
        switch (c) {
        case 'O': open.push_back(kopen()); break;
        case '0': cl(0); break;
        case '1': cl(open.size() - 1); break;
        case 'a': kuse(open[0]); break;
        case 'b': kuse(open.back()); break;
        case 's': { bool taken = false; for (auto &k : open) if (k.id == last) taken = true; if (!taken) stale(last, lastser); break; }
        case 'g': { int fd = open_null(); grabbed.push_back(fd); break; }
        case 'q': rt::sched_quiesce(); break;
        }
    }
    static int open_null() { int fd = ::open("/dev/null", O_RDWR | O_CLOEXEC); if (fd < 0) sfail("harness open"); return fd; }
    void check_grabbed() { for (int fd : grabbed) need(fcntl(fd, F_GETFD) >= 0, "a descriptor of the application was closed"); }
};
void gen(const std::string &alpha, int len, int maxopen, std::vector<std::string> &out, std::string cur = "", int nopen = 0, bool closed = false)
{
    if ((int)cur.size() == len) { if (closed) out.push_back(cur); return; }
    for (char c : alpha) {
        char prev = cur.empty() ? 0 : cur.back();
        if (c == 'O') { if (nopen < maxopen) gen(alpha, len, maxopen, out, cur + c, nopen + 1, closed); continue; }
        if (c == '1' || c == 'b') { if (nopen < 2) continue; }
        else if (c == '0' || c == 'a') { if (nopen < 1) continue; }
        else if (c == 's') { if (!closed || prev == 's') continue; }
        else if (c == 'g') { if (cur.empty() || prev == 'g') continue; }
        else if (c == 'q') { if (cur.empty() || prev == 'q') continue; }
        bool cl = c == '0' || c == '1';
        if ((c == 'a' || c == 'b') && (prev == 'a' || prev == 'b' || prev == 'O')) continue;
        gen(alpha, len, maxopen, out, cur + c, nopen - cl, closed || cl);
    }
}
RegFam f1("life", false, [](std::vector<Scn> &v, int l) {
    std::vector<std::string> h;
    int len = l == 0 ? 4 : l == 1 ? 5 : 6;
    for (int i = 1; i <= len; i++) gen(l >= 2 ? "O01abs" : "O01absg", i, l >= 2 ? 3 : 2, h);
    for (auto &s : h) v.push_back({ s, [=] {
        Env e = warm();
        Hist x;
        for (char c : s) x.step(c);
        x.check_grabbed();
        finish(e, x.open);
        x.check_grabbed();
    } });
});
// ------------------------------------------------------------------ two threads
// own kqueue: O open u use c close;  shared kqueue: U use (own ident), K close
void two(const std::string &p1, const std::string &p2)
{
    Env e = warm();
    rt::sched_explore = false;
    Kq sh = kopen();
    bool killed = (p1 + p2).find('K') != std::string::npos;
    rt::sched_explore = true;
    static std::vector<Kq> &left = *new std::vector<Kq>;
    auto prog = [=](const std::string &p, int t) {
        std::vector<Kq> mine;
        for (char c : p) {
            if (c == 'O') mine.push_back(kopen());
            if (c == 'u') kuse(mine.back());
            if (c == 'c') { rt::kq_close(mine.back().id); mine.pop_back(); }
            if (c == 'K') rt::kq_close(sh.id);
            if (c == 'G') { struct kevent ev[4]; int n = get(sh.id, ev, 4); note(n); if (n >= 0) need(n == 1 && ev[0].udata == ud(sh.serial, 2), "collect returned %d", n); }
            if (c == 'U') {
                int r = chg(sh.id, 20 + t, EVFILT_USER, EV_ADD | EV_ONESHOT, 0, 0, ud(sh.serial, t));
                need(killed || r == 0, "add failed with errno %d", r);
                note(r);
                r = chg(sh.id, 20 + t, EVFILT_USER, EV_DELETE);
                need(killed || r == 0, "delete failed with errno %d", r);
                note(r);
            }
        }
        for (auto &k : mine) left.push_back(k);
    };
    int a = spawn([=] { prog(p1, 3); }, "T1"), b = spawn([=] { prog(p2, 4); }, "T2");
    rt::sched_join(a); rt::sched_join(b);
    if (!killed) left.push_back(sh);
    finish(e, left);
}
RegFam f2("life2", false, [](std::vector<Scn> &v, int l) {
    std::vector<std::string> p = { "O", "Oc", "Ouc", "OcO" };
    if (l >= 1) { p.push_back("OcOu"); p.push_back("OcOc"); p.push_back("OOc"); }
    for (size_t i = 0; i < p.size(); i++) for (size_t j = i; j < p.size(); j++) { auto a = p[i], b = p[j]; v.push_back({ a + "|" + b, [=] { two(a, b); } }); }
    std::vector<std::string> k = { "K", "KO", "KOc" };
    for (auto &a : k) for (std::string b : { "U", "UU", "O", "Ou", "OcO" }) {
        if (b[0] == 'U' && a.size() > 1) continue;      // the number may come to name the other thread's kqueue
        v.push_back({ a + "|" + b, [=] { two(a, b); } });
    }
    for (auto &b : p) v.push_back({ "UU|" + b, [=] { two("UU", b); } });
});

// one kqueue closed by one thread while another one calls into it (nothing else takes the number)
RegFam f2b("race", false, [](std::vector<Scn> &v, int l) {
    for (std::string b : { "U", "UU", "G", "UG" }) v.push_back({ "K|" + b, [=] { two("K", b); } });
    if (l >= 1) for (std::string b : { "UOU", "GOc" }) v.push_back({ "K|" + b, [=] { two("K", b); } });
});

// ------------------------------------------------------------------ fork
void final_hook()
{
    if (!rt::faults_seen.empty()) sfail("exit: %s", rt::faults_seen[0].c_str());
    R->finished = 1;
    _exit(0);
}
void reap(pid_t c, const char *who)
{
    int st;
    while (waitpid(c, &st, 0) < 0) if (errno != EINTR) sfail("harness waitpid");
    if (WIFSIGNALED(st)) sfail("%s died of signal %d%s", who, WTERMSIG(st), WTERMSIG(st) == SIGALRM ? " (hang)" : "");
    need(WEXITSTATUS(st) == 0, "%s failed: exit status %d", who, WEXITSTATUS(st));
}
// nothing that makes up a kqueue of the parent may be left in the child
void child_clean()
{
    for (const char *k : { "epoll", "pipe-r", "pipe-w" }) need(rt::ledger_kind(k) == 0, "the child still holds %ld %s descriptors of the parent's kqueues (%s)", rt::ledger_kind(k), k, rt::ledger_detail().c_str());
}
struct ForkCfg { int child; const char *thr; bool same; };
void fork_body(ForkCfg cfg)
{
    atexit(final_hook);
    Env e = warm();
    rt::sched_explore = false;
    Kq a = kopen(), b = kopen();
    int wp[2]; mkpipe(wp);
    int tser = ++serials;
    need(chg(a.id, 30, EVFILT_TIMER, EV_ADD, 0, 10, ud(tser, 1)) == 0, "timer add failed");
    rt::sched_explore = true;
    static std::vector<Kq> &left = *new std::vector<Kq>;
    std::string tp = cfg.thr ? cfg.thr : "";
    int t = -1;
    if (cfg.thr) t = spawn([=] {
        std::vector<Kq> mine;
        Kq k = cfg.same ? a : b;
        struct kevent ev[4];
        for (char c : tp) {
            if (c == 'O') mine.push_back(kopen());
            if (c == 'c') { rt::kq_close(mine.back().id); mine.pop_back(); }
            if (c == 'A') need(chg(k.id, 20, EVFILT_USER, EV_ADD, 0, 0, ud(k.serial, 1)) == 0, "add failed");
            if (c == 'D') need(chg(k.id, 20, EVFILT_USER, EV_DELETE) == 0, "delete failed");
            if (c == 'C') { int n = get(k.id, ev, 1); need(n == 1 && ev[0].udata == ud(k.serial, 2), "collect returned %d", n); }
            if (c == 'W') { int n = get(k.id, ev, 2, nullptr); need(n >= 1, "wait returned %d", n); }
        }
        for (auto &m : mine) left.push_back(m);
    }, "T");
    rt::sched_point("fork");
    pid_t c = rt::lib_fork();
    if (c == 0) {
        rt::sched_explore = false;
        alarm(20);
        int fa = fcntl(a.id, F_GETFD), fb = fcntl(b.id, F_GETFD);
        need(fa < 0 && fb < 0, "the child still holds a kqueue descriptor of the parent");
        child_clean();
        long held = rt::ledger().fds;
        if (cfg.child >= 1) {
            std::vector<Kq> ks;
            for (int i = 0; i < (cfg.child >= 3 ? 5 : 2); i++) { ks.push_back(kopen()); kuse(ks.back()); }
            for (auto &k : ks) kuse(k);
            if (cfg.child >= 2) { for (auto &k : ks) rt::kq_close(k.id); rt::sched_quiesce(); need(rt::ledger().fds == held, "the child holds %ld descriptors of the library after closing its kqueues, %ld before it made any (%s)", rt::ledger().fds, held, rt::ledger_detail().c_str()); Kq k = kopen(); kuse(k); }
        }
        if (cfg.child == 4) { pid_t g = rt::lib_fork(); if (g == 0) { alarm(10); Kq k = kopen(); kuse(k); rt::lib_exit(0); } reap(g, "grandchild"); }
        check_rt("child");
        rt::lib_exit(0);
    }
    need(c > 0, "fork failed");
    reap(c, "child after fork");
    rt::sched_point("after fork");
    rt::vclock_advance(10000000);
    if (t >= 0) rt::sched_join(t);
    rt::sched_explore = false;
    struct kevent ev[4];
    int n = get(a.id, ev, 4);
    bool tm = false;
    for (int i = 0; i < n; i++) if (ev[i].udata == ud(tser, 1) && ev[i].filter == EVFILT_TIMER) tm = true;
    need(tm, "the parent's timer was lost after fork");
    need(chg(a.id, 30, EVFILT_TIMER, EV_DELETE) == 0, "delete failed");
    left.push_back(a); left.push_back(b);
    finish(e, left);
}
RegFam f3("fork", false, [](std::vector<Scn> &v, int l) {
    const char *thr[] = { nullptr, "C", "AD", "O", "Oc", "OcO" };
    for (int c = 0; c <= 4; c++) for (auto t : thr) for (int same = 0; same < 2; same++) {
        if (same && (!t || t[0] == 'O')) continue;
        v.push_back({ sf("child%d/%s/%s", c, t ? t : "-", same ? "same" : "other"), [=] { fork_body({ c, t, same != 0 }); } });
    }
});
// clean-up on fork switched off (and on again): nothing is taken away from the child, the parent notices nothing
void fork_nocleanup(int how, bool thr)
{
    atexit(final_hook);
    Env e = warm();
    Kq a = kopen(), b = kopen();
    need(chg(a.id, 0, EVFILT_LIBKQUEUE, EV_ADD, NOTE_FORK_CLEANUP, 0) == 0, "switching off the clean-up failed");
    int t = -1;
    rt::sched_explore = true;
    if (thr) t = spawn([=] { kuse(b); kuse(b); }, "T");
    rt::sched_point("fork");
    long held = rt::ledger().fds;
    pid_t c = rt::lib_fork();
    if (c == 0) {
        alarm(20);
        need(fcntl(a.id, F_GETFD) >= 0 && fcntl(b.id, F_GETFD) >= 0 && rt::ledger().fds == held, "descriptors were closed in the child although clean-up is switched off");
        if (how == 1) _exit(0);
        rt::lib_exit(0);
    }
    reap(c, "child after fork");
    rt::sched_point("after fork");
    if (t >= 0) rt::sched_join(t);
    rt::sched_explore = false;
    kuse(a); kuse(b);
    if (how >= 2) {
        need(chg(b.id, 0, EVFILT_LIBKQUEUE, EV_ADD, NOTE_FORK_CLEANUP, 1) == 0, "switching on the clean-up failed");
        c = rt::lib_fork();
        if (c == 0) { alarm(20); need(fcntl(a.id, F_GETFD) < 0, "the child still holds a kqueue descriptor of the parent"); child_clean(); Kq k = kopen(); kuse(k); rt::lib_exit(0); }
        reap(c, "second child");
        kuse(a); kuse(b);
    }
    need(chg(a.id, 0, EVFILT_LIBKQUEUE, EV_DELETE) == 0, "delete failed");
    if (how >= 2) need(chg(b.id, 0, EVFILT_LIBKQUEUE, EV_DELETE) == 0, "delete failed");
    finish(e, { a, b });
}
RegFam f3c("fork3", false, [](std::vector<Scn> &v, int l) {
    for (int h = 0; h < 3; h++) for (int t = 0; t < 2; t++) v.push_back({ sf("nocleanup/%d/%d", h, t), [=] { fork_nocleanup(h, t); } });
});
// fork, then either side closes
RegFam f3b("fork2", false, [](std::vector<Scn> &v, int l) {
    for (int w = 0; w < 6; w++) v.push_back({ sf("close/%d", w), [=] {
        atexit(final_hook);
        Env e = warm();
        Kq a = kopen();
        Kq b = kopen();
        if (w & 1) rt::kq_close(b.id);              // its clean-up races with the fork
        rt::sched_point("fork");
        pid_t c = rt::lib_fork();
        if (c == 0) {
            rt::sched_explore = false;
            alarm(20);
            need(fcntl(a.id, F_GETFD) < 0, "the child still holds a kqueue descriptor of the parent");
            child_clean();
            if (w >= 2) { Kq k = kopen(), m = kopen(); kuse(k); kuse(m); rt::kq_close(k.id); Kq o = kopen(); kuse(m); kuse(o); rt::sched_quiesce(); kuse(m); kuse(o); }
            check_rt("child");
            if (w >= 4) _exit(0);
            rt::lib_exit(0);
        }
        reap(c, "child after fork");
        rt::sched_point("after fork");
        kuse(a);
        std::vector<Kq> open = { a };
        if (!(w & 1)) open.push_back(b);
        if (w >= 2) { rt::kq_close(a.id); open.erase(open.begin()); Kq d = kopen(); kuse(d); open.push_back(d); }
        finish(e, open);
    } });
});

// ------------------------------------------------------------------ cancellation
// contend: another thread uses the same kqueue meanwhile
void cancel_body(const std::string &what, bool disabled, int pending, bool contend = false)
{
    Env e = warm();
    rt::sched_explore = false;
    Kq a = kopen(), b = kopen();
    int p[2]; mkpipe(p);
    Kq w{ rt::kq_open(), ++serials };                 // nothing but p is registered here
    need(w.id >= 0 && chg(w.id, p[0], EVFILT_READ, EV_ADD, 0, 0, ud(w.serial, 2)) == 0, "add failed");
    if (pending) put(p[1]);
    static bool completed, added; static int made;
    made = -1;
    rt::sched_explore = true;
    int t = spawn([=] {
        int st;
        struct kevent ev[4], k[2];
        pthread_setcancelstate(disabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE, nullptr);
        if (what == "wait" || what == "wait-timed" || what == "wait-fine" || what == "poll") {
            struct timespec ts = { 0, what == "wait-fine" ? 20000001 : 20000000 };
            int n = get(w.id, ev, 2, what == "wait" ? nullptr : what == "poll" ? &ZT : &ts);
            need(n == (pending ? 1 : 0), "collect returned %d", n);
        } else if (what == "change") {
            need(chg(a.id, 20, EVFILT_USER, EV_ADD, 0, 0, ud(a.serial, 3)) == 0, "add failed");
            added = true;
        } else if (what == "both") {
            EV_SET(&k[0], 20, EVFILT_USER, EV_ADD, 0, 0, ud(a.serial, 3));
            EV_SET(&k[1], 20, EVFILT_USER, EV_DELETE, 0, 0, ud(a.serial, 3));
            int n = rt::kq_event(a.id, k, 2, ev, 4, &ZT);
            need(n == 1 && ev[0].udata == ud(a.serial, 2), "call returned %d", n);
        } else if (what == "changewait") {         // a change and a wait in one call
            EV_SET(&k[0], 20, EVFILT_USER, EV_ADD, 0, 0, ud(w.serial, 3));
            struct timespec ts = { 0, 20000000 };
            int n = rt::kq_event(w.id, k, 1, ev, 4, &ts);
            need(n == (pending ? 1 : 0), "call returned %d", n);
        } else if (what == "receipt") {
            EV_SET(&k[0], 20, EVFILT_USER, EV_ADD | EV_RECEIPT, 0, 0, ud(a.serial, 3));
            int n = rt::kq_event(a.id, k, 1, ev, 4, nullptr);
            need(n == 1 && (ev[0].flags & EV_ERROR) && ev[0].data == 0, "call returned %d", n);
            added = true;
        } else if (what == "fail") {
            need(chg(a.id, 77, EVFILT_USER, EV_DELETE) == ENOENT, "delete of an absent ident");
        } else if (what == "badkq") {
            int n = get(P[0], ev, 2);
            need(n < 0, "kevent on something that is no kqueue returned %d", n);
        } else if (what == "open") {
            int q = rt::kq_open();
            need(q >= 0, "kqueue() failed");
            made = q;
        }
        completed = true;
        pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &st);
        need(st == (disabled ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE), "the call changed the caller's cancellation state");
    }, "T");
    int t2 = !contend ? -1 : spawn([=] {
        bool onw = what[0] == 'w' || what == "poll" || what == "changewait";
        int q = onw ? w.id : a.id;
        need(chg(q, 30, EVFILT_USER, EV_ADD | EV_CLEAR, NOTE_TRIGGER, 0, ud(a.serial, 4)) == 0, "add failed");
        struct kevent ev[4];
        int n = get(q, ev, 4), u = 0;
        for (int i = 0; i < n; i++) if (ev[i].udata == ud(a.serial, 4)) u++;
        note(n);
        need(n >= 0 && u <= 1, "collect returned %d", n);
        need(chg(q, 30, EVFILT_USER, EV_DELETE) == 0, "delete failed");
    }, "U");
    rt::sched_cancel(t);
    rt::sched_join(t);
    if (contend) rt::sched_join(t2);
    note(completed);
    if (disabled) need(completed, "a thread with cancellation disabled was cancelled");
    rt::sched_explore = false;
    check_rt("cancellation");
    kuse(a); kuse(b);
    struct kevent ev[4];
    if (!pending) put(p[1]);
    int n = get(w.id, ev, 2);
    need(n == 1 && ev[0].udata == ud(w.serial, 2), "after the cancellation a pending event is not reported (%d)", n);
    chg(w.id, 20, EVFILT_USER, EV_DELETE);
    int r = chg(a.id, 20, EVFILT_USER, EV_DELETE);
    if (completed && added) need(r == 0, "a completed change is lost");
    Kq c = kopen();
    kuse(c);
    rt::kq_close(c.id);
    rt::kq_close(w.id);
    if (made >= 0) rt::kq_close(made);
    finish(e, { a, b });
}
// the very first call of the process is cancelled
void cancel_first(int also)
{
    mkpipe(P); put(P[1]);
    static int made; made = -1;
    int t = spawn([] { int q = rt::kq_open(); need(q >= 0, "kqueue() failed"); made = q; }, "T");
    int t2 = also ? spawn([] { Kq k = kopen(); kuse(k); rt::kq_close(k.id); }, "U") : -1;
    rt::sched_cancel(t);
    rt::sched_join(t);
    if (also) rt::sched_join(t2);
    rt::sched_explore = false;
    note(made >= 0);
    check_rt("cancellation");
    Kq a = kopen(), b = kopen();
    kuse(a); kuse(b);
    rt::kq_close(a.id);
    rt::sched_quiesce();
    kuse(b);
    rt::kq_close(b.id);
    if (made >= 0) rt::kq_close(made);
    rt::sched_quiesce();
    check_rt("cancellation");
    need(rt::ledger().fds == 0, "descriptors left after closing every kqueue: %s", rt::ledger_detail().c_str());
    a = kopen(); kuse(a);
}
RegFam f4b("cancel2", false, [](std::vector<Scn> &v, int l) {
    for (std::string w : { "wait", "wait-timed", "wait-fine", "poll", "change", "both", "fail", "changewait", "receipt" }) for (int d = 0; d < 2; d++) for (int p = 0; p < 2; p++) {
        bool waits = w[0] == 'w' || w == "poll" || w == "changewait";
        if (!waits && p) continue;
        if (w == "wait" && !p && d) continue;
        if (waits && !p) continue;              // the other thread's user event might be what the waiter gets
        v.push_back({ sf("%s/%s/%d/contend", w.c_str(), d ? "disabled" : "enabled", p), [=] { cancel_body(w, d, p, true); } });
    }
    for (int a = 0; a < 2; a++) v.push_back({ sf("first/%d", a), [=] { cancel_first(a); } });
});
RegFam f4("cancel", false, [](std::vector<Scn> &v, int l) {
    for (std::string w : { "wait", "wait-timed", "wait-fine", "poll", "change", "both", "fail", "badkq", "open", "changewait", "receipt" }) for (int d = 0; d < 2; d++) for (int p = 0; p < 2; p++) {
        bool waits = w[0] == 'w' || w == "poll" || w == "changewait";
        if (!waits && p) continue;
        if (w == "wait" && d && !p) continue;       // would rightly wait for ever
        v.push_back({ sf("%s/%s/%d", w.c_str(), d ? "disabled" : "enabled", p), [=] { cancel_body(w, d, p); } });
    }
});

// ------------------------------------------------------------------ exit
void exit_body(const std::string &s, const char *thr, int forked)
{
    atexit(final_hook);
    rt::sched_explore = false;
    mkpipe(P); put(P[1]);
    int p[2]; mkpipe(p);
    Hist x;
    Kq w{ -1, 0 };
    if (thr) {
        w = kopen();
        if (*thr == 'W') { rt::kq_close(w.id); w.id = rt::kq_open(); need(chg(w.id, p[0], EVFILT_READ, EV_ADD) == 0, "add"); }
    }
    rt::sched_explore = true;
    std::string tp = thr ? thr : "";
    if (thr) spawn([=] {
        struct kevent ev[4];
        for (char c : tp) {
            if (c == 'W') get(w.id, ev, 2, nullptr);
            if (c == 'u') kuse(w);
            if (c == 'O') { Kq k = kopen(); kuse(k); }
            if (c == 'o') { Kq k = kopen(); rt::kq_close(k.id); }
        }
        for (;;) rt::sched_join(0);          // stays around
    }, "T");
    for (char c : s) x.step(c);
    check_rt("before exit");
    if (forked) {
        pid_t c = rt::lib_fork();
        if (c == 0) { rt::sched_explore = false; alarm(20); if (forked == 2) { Kq k = kopen(), m = kopen(); kuse(k); rt::kq_close(m.id); } rt::lib_exit(0); }
        reap(c, "exiting child");
    }
    rt::lib_exit(0);
}
RegFam f5("exit", false, [](std::vector<Scn> &v, int l) {
    std::vector<std::string> h = { "", "O", "OO" };
    for (int i = 2; i <= (l == 0 ? 4 : 5); i++) gen("O01aq", i, 2, h);
    for (auto &s : h) v.push_back({ sf("-/%s", s.c_str()), [=] { exit_body(s, nullptr, 0); } });
    for (auto t : { "W", "u", "O", "o" }) for (std::string s : { "", "O", "O0", "OO0", "OO01", "O0O" }) v.push_back({ sf("%s/%s", t, s.c_str()), [=] { exit_body(s, t, 0); } });
    for (int f = 1; f <= 2; f++) for (std::string s : { "", "O", "O0", "OO0", "O0O" }) v.push_back({ sf("fork%d/%s", f, s.c_str()), [=] { exit_body(s, nullptr, f); } });
});
} // namespace
