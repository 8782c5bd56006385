// C16: concurrent calls behave as if executed one at a time.
#include "sched.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/socket.h>
#include <functional>
#include <signal.h>
#include <stdlib.h>
#include <sys/wait.h>

namespace {
// ------------------------------------------------------------------ reference model: one registration
enum Mode { LEVEL, CLEAR, ONESHOT, DISPATCH };
const char *mode_name[] = { "level", "clear", "oneshot", "dispatch" };
const unsigned mode_flag[] = { 0, EV_CLEAR, EV_ONESHOT, EV_DISPATCH };
struct Model {
    bool user; Mode mode;
    bool present = false, enabled = false, trig = false; int bytes = 0;
    int edge = 0;       // CLEAR on a descriptor: 0 no, 1 maybe, 2 yes
    int ready() const   // 0 no, 1 maybe, 2 yes
    {
        if (!present || !enabled) return 0;
        if (user) return trig ? 2 : 0;
        if (bytes == 0) return 0;
        return mode == CLEAR ? edge : 2;
    }
    void deliver()
    {
        edge = 0;
        if (user && mode != LEVEL) trig = false;
        if (mode == ONESHOT) { present = enabled = trig = false; }
        if (mode == DISPATCH) enabled = false;
    }
    void enable() { enabled = true; edge = 2; }
    // apply an operation whose observed result was res; false if the model does not allow it
    bool apply(char op, int res)
    {
        switch (op) {
        case 'A':
            if (!present) { present = true; trig = false; enable(); }
            else { if (!enabled) enable(); if (edge == 0) edge = 1; }
            return res == 0;
        case 'D': if (!present) return res == ENOENT; present = enabled = trig = false; return res == 0;
        case 'E': if (!present) return res == ENOENT; if (!enabled) enable(); return res == 0;
        case 'X': if (!present) return res == ENOENT; enabled = false; return res == 0;
        case 'T': if (!present) return res == ENOENT; if (enabled) trig = true; return res == 0;
        case 'W': bytes++; edge = edge == 2 || (present && enabled) ? 2 : edge; return true;
        case 'R': if (bytes) { if (res != 1) return false; bytes--; return true; } return res == 0;
        case 'C': case 'P': {
            if (op == 'P') { if (!present) return res == 1000 + ENOENT; if (enabled) trig = true; }
            int r = ready();
            if (res == 1) { if (!r) return false; deliver(); return true; }
            if (res == 0) return r != 2;
            return false;
        }
        }
        return false;
    }
};
struct Rec { char op; int t0, t1, res; };
bool linearise(const std::vector<Rec> &h, std::vector<bool> &done, Model m, size_t left)
{
    if (!left) return true;
    int mint1 = 1 << 30;
    for (size_t i = 0; i < h.size(); i++) if (!done[i]) mint1 = std::min(mint1, h[i].t1);
    for (size_t i = 0; i < h.size(); i++) {
        if (done[i] || h[i].t0 > mint1) continue;
        Model n = m;
        if (!n.apply(h[i].op, h[i].res)) continue;
        done[i] = true;
        if (linearise(h, done, n, left - 1)) return true;
        done[i] = false;
    }
    return false;
}
// a trigger that leaves EV_DISPATCH in force
int trigger(int kq, uintptr_t id, Mode m, void *ud)
{
    if (m != DISPATCH) return chg(kq, id, EVFILT_USER, 0, NOTE_TRIGGER, 0, ud);
    struct kevent k, ev[1];
    EV_SET(&k, id, EVFILT_USER, EV_RECEIPT | EV_DISPATCH, NOTE_TRIGGER, 0, ud);
    int r = rt::kq_event(kq, &k, 1, ev, 1, &ZT);
    need(r == 1 && (ev[0].flags & EV_ERROR) && ev[0].ident == id, "change with a receipt returned %d", r);
    return ev[0].data;
}
int do_op(char op, int kq, bool user, Mode m, int rfd, int wfd)
{
    uintptr_t id = user ? 7 : rfd;
    short f = user ? EVFILT_USER : EVFILT_READ;
    char c = 'x';
    struct kevent ev[2];
    switch (op) {
    case 'A': return chg(kq, id, f, EV_ADD | mode_flag[m], 0, 0, (void *)0x11);
    case 'D': return chg(kq, id, f, EV_DELETE, 0, 0, (void *)0x11);
    case 'E': return chg(kq, id, f, EV_ENABLE, 0, 0, (void *)0x11);
    case 'X': return chg(kq, id, f, EV_DISABLE, 0, 0, (void *)0x11);
    case 'T': return trigger(kq, id, m, (void *)0x11);
    case 'W': rt::sched_point("write"); if (write(wfd, &c, 1) != 1) sfail("harness write"); return 0;
    case 'R': { rt::sched_point("read"); int r = read(rfd, &c, 1); return r == 1 ? 1 : 0; }
    case 'C': case 'P': {
        struct kevent k;
        EV_SET(&k, id, f, 0, NOTE_TRIGGER, 0, (void *)0x11);
        memset(ev, 0x5a, sizeof ev);
        errno = 0;
        int r = rt::kq_event(kq, op == 'P' ? &k : nullptr, op == 'P', ev, 1, &ZT);
        if (r == 0) return 0;
        if (r != 1) sfail("collect returned %d errno %d", r, errno);
        if ((ev[0].flags & EV_ERROR) && op == 'P') return 1000 + (int)ev[0].data;
        if (ev[0].ident != id || ev[0].filter != f || ev[0].udata != (void *)0x11 || (ev[0].flags & EV_ERROR)) sfail("event does not match the registration: ident %lu filter %d flags %#x udata %p", (unsigned long)ev[0].ident, ev[0].filter, ev[0].flags, ev[0].udata);
        if (!user && ev[0].data < 1) sfail("READ event with data %ld", (long)ev[0].data);
        return 1;
    }
    }
    return 0;
}
// init: "" absent, otherwise operations run sequentially first
void lin_body(bool user, Mode m, std::string init, std::vector<std::string> progs)
{
    static std::vector<Rec> h;
    static int clk = 0;
    rt::sched_explore = false;
    int p[2] = { -1, -1 };
    if (!user && pipe2(p, O_NONBLOCK | O_CLOEXEC)) sfail("harness pipe");
    int anchor = rt::kq_open();                     // keeps the background thread alive throughout
    rt::Ledger l0 = rt::ledger();
    int kq = rt::kq_open();
    need(anchor >= 0 && kq >= 0, "kqueue() failed");
    Model mod{ user, m };
    for (char c : init) { int r = do_op(c, kq, user, m, p[0], p[1]); if (!mod.apply(c, r)) sfail("set-up operation %c returned %d", c, r); }
    rt::sched_explore = true;
    std::vector<int> ids;
    for (size_t i = 0; i < progs.size(); i++) {
        std::string pr = progs[i];
        ids.push_back(spawn([=] {
            for (char c : pr) { Rec r; r.op = c; r.t0 = clk++; r.res = do_op(c, kq, user, m, p[0], p[1]); r.t1 = clk++; h.push_back(r); }
        }, i == 0 ? "T1" : i == 1 ? "T2" : "T3"));
    }
    for (int i : ids) rt::sched_join(i);
    rt::sched_explore = false;
    // the final state is observed as well
    std::string tail = user ? "CCTCD" : "CCWCCD";
    for (char c : tail) { Rec r; r.op = c; r.t0 = clk++; r.res = do_op(c, kq, user, m, p[0], p[1]); r.t1 = clk++; h.push_back(r); }
    check_rt("concurrent calls");
    std::vector<bool> done(h.size());
    for (auto &r : h) note(r.op * 10000 + r.res);
    if (!linearise(h, done, mod, h.size())) {
        std::string s;
        std::vector<Rec> g = h;
        std::sort(g.begin(), g.end(), [](const Rec &a, const Rec &b) { return a.t0 < b.t0; });
        for (auto &r : g) s += sf(" %c=%d[%d,%d]", r.op, r.res, r.t0, r.t1);
        sfail("no sequential order of the calls explains the results:%s", s.c_str());
    }
    rt::kq_close(kq);
    rt::sched_quiesce();
    check_rt("close");
    rt::Ledger l1 = rt::ledger();
    if (l1.fds != l0.fds || l1.blocks != l0.blocks) sfail("resources left after closing the kqueue: fds %ld -> %ld, blocks %ld -> %ld (%s)", l0.fds, l1.fds, l0.blocks, l1.blocks, rt::ledger_detail().c_str());
}
void words(const std::string &alpha, int n, std::vector<std::string> &out, std::string cur = "")
{
    if ((int)cur.size() == n) { out.push_back(cur); return; }
    for (char c : alpha) words(alpha, n, out, cur + c);
}
void make_lin(std::vector<Scn> &v, bool user, const char *alpha, std::vector<std::string> inits, int l1, int l2, int l3)
{
    std::vector<std::string> a, b, c;
    for (int i = 1; i <= l1; i++) words(alpha, i, a);
    for (int i = 1; i <= l2; i++) words(alpha, i, b);
    if (l3) words(alpha, l3, c);
    for (int m = 0; m < 4; m++) for (auto &in : inits) for (auto &x : a) for (auto &y : b) {
        if (y.size() == x.size() && y < x) continue;
        if (y.size() < x.size() && (int)x.size() <= l2) continue;
        bool obs = false;
        for (char ch : x + y) if (ch != 'W' && ch != 'R') obs = true;
        if (!obs) continue;
        if (m == DISPATCH && (x + y).find('P') != std::string::npos) continue;   // a plain trigger drops EV_DISPATCH
        if (!l3) v.push_back({ sf("%s/%s/%s/%s|%s", user ? "user" : "pipe", mode_name[m], in.empty() ? "-" : in.c_str(), x.c_str(), y.c_str()), [=] { lin_body(user, (Mode)m, in, { x, y }); } });
        for (auto &z : c) { if (z < y) continue; v.push_back({ sf("%s/%s/%s/%s|%s|%s", user ? "user" : "pipe", mode_name[m], in.empty() ? "-" : in.c_str(), x.c_str(), y.c_str(), z.c_str()), [=] { lin_body(user, (Mode)m, in, { x, y, z }); } }); }
    }
}
// level 0: programs 1|1;  1: 2|1;  2: 2|2;  3: three threads of one call
RegFam f1("lin_user", false, [](std::vector<Scn> &v, int l) {
    std::vector<std::string> in = { "", "A", "AT", "AX" };
    if (l == 0) make_lin(v, true, "ADTEXCP", in, 1, 1, 0);
    if (l == 1) make_lin(v, true, "ADTXCP", { "", "AT" }, 2, 1, 0);
    if (l == 2) make_lin(v, true, "ADTXC", { "", "AT" }, 2, 2, 0);
    if (l == 3) make_lin(v, true, "ADTC", { "", "AT" }, 1, 1, 1);
});
RegFam f2("lin_pipe", false, [](std::vector<Scn> &v, int l) {
    std::vector<std::string> in = { "", "A", "AW", "AWX" };
    if (l == 0) make_lin(v, false, "ADEXWRC", in, 1, 1, 0);
    if (l == 1) make_lin(v, false, "ADXWRC", { "", "AW" }, 2, 1, 0);
    if (l == 2) make_lin(v, false, "ADWRC", { "", "AW" }, 2, 2, 0);
    if (l == 3) make_lin(v, false, "ADWC", { "", "AW" }, 1, 1, 1);
});

// ------------------------------------------------------------------ hand-written scenarios
struct Cleanup {
    rt::Ledger l0;
    Cleanup() { rt::sched_explore = false; int a = rt::kq_open(); need(a >= 0, "kqueue() failed"); l0 = rt::ledger(); rt::sched_explore = true; }
    void finish(std::vector<int> kqs)
    {
        rt::sched_explore = false;
        for (int k : kqs) rt::kq_close(k);
        rt::sched_quiesce();
        check_rt("concurrent calls");
        rt::Ledger l1 = rt::ledger();
        if (l1.fds != l0.fds || l1.blocks != l0.blocks) sfail("resources left at the end: fds %ld -> %ld, blocks %ld -> %ld (%s)", l0.fds, l1.fds, l0.blocks, l1.blocks, rt::ledger_detail().c_str());
    }
};
void mkpipe(int *p) { if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) sfail("harness pipe"); }
void put(int fd) { char c = 1; if (write(fd, &c, 1) != 1) sfail("harness write"); }

// several threads wait (without limit) on one kqueue, k descriptors become readable one after the other
void waiters(int nthr, Mode m, int nev)
{
    Cleanup cl;
    rt::sched_explore = false;
    int kq = rt::kq_open();
    int p[3][2];
    for (int i = 0; i < nthr; i++) { mkpipe(p[i]); need(chg(kq, p[i][0], EVFILT_READ, EV_ADD | mode_flag[m], 0, 0, (void *)(uintptr_t)(100 + i)) == 0, "add failed"); }
    static int got[3], total;
    rt::sched_explore = true;
    std::vector<int> ids;
    for (int t = 0; t < nthr; t++) ids.push_back(spawn([=] {
        struct kevent ev[4];
        int n = get(kq, ev, nev, nullptr);
        need(n >= 1, "unlimited wait returned %d", n);
        for (int i = 0; i < n; i++) {
            int w = (int)(uintptr_t)ev[i].udata - 100;
            need(w >= 0 && w < nthr && (int)ev[i].ident == p[w][0], "event with foreign contents");
            got[w]++; total++;
            char c;
            rt::sched_point("drain");
            if (m == LEVEL) (void)!read(p[w][0], &c, 1);
        }
    }, t == 0 ? "T1" : t == 1 ? "T2" : "T3"));
    for (int i = 0; i < nthr; i++) { rt::sched_point("put"); put(p[i][1]); }
    // with lists larger than one a single waiter may take everything; release the others
    int released = 0;
    if (nev > 1 || m == CLEAR) {
        rt::sched_quiesce();
        while (true) { bool all = true; for (int t : ids) if (!rt::sched_done(t)) all = false; if (all || released > 8) break; released++; for (int i = 0; i < nthr; i++) if (m == LEVEL || m == CLEAR) put(p[i][1]); if (m != LEVEL && m != CLEAR) break; rt::sched_quiesce(); }
    }
    if ((m == ONESHOT || m == DISPATCH) && nev > 1) { // remaining waiters are let go by a fresh descriptor: impossible while they hold the queue; just stop here
        for (int i = 0; i < nthr; i++) need(got[i] <= 1, "descriptor %d was handed out %d times", i, got[i]);
        note(total);
        check_rt("waiters");
        R->finished = 1;
        _exit(0);
    }
    for (int t : ids) rt::sched_join(t);
    if (m == ONESHOT || m == DISPATCH) for (int i = 0; i < nthr; i++) need(got[i] == 1, "descriptor %d was handed out %d times", i, got[i]);
    if (!released) for (int i = 0; i < nthr; i++) if (m == LEVEL) need(got[i] >= 1 || total >= nthr, "descriptor %d was never handed out", i);
    for (int i = 0; i < nthr; i++) note(got[i]);
    cl.finish({ kq });
}
// n triggers by n threads on EV_CLEAR user events, collectors poll: nothing lost at the end, nothing invented
void trig_many(Mode m)
{
    Cleanup cl;
    rt::sched_explore = false;
    int kq = rt::kq_open();
    for (int i = 0; i < 2; i++) need(chg(kq, 10 + i, EVFILT_USER, EV_ADD | mode_flag[m], 0, 0, (void *)(uintptr_t)(100 + i)) == 0, "add failed");
    static int got[2];
    rt::sched_explore = true;
    int a = spawn([=] { need(trigger(kq, 10, m, (void *)100) == 0, "trigger failed"); }, "T1");
    int b = spawn([=] { need(trigger(kq, 11, m, (void *)101) == 0, "trigger failed"); }, "T2");
    int c = spawn([=] { struct kevent ev[2]; for (int k = 0; k < 2; k++) { int n = get(kq, ev, 1); need(n >= 0, "collect failed: %d", n); if (n) got[ev[0].ident - 10]++; } }, "T3");
    rt::sched_join(a); rt::sched_join(b); rt::sched_join(c);
    struct kevent ev[4];
    int n;
    note(got[0] * 10 + got[1]);
    n = get(kq, ev, 4);
    need(n >= 0, "collect failed: %d", n);
    for (int i = 0; i < n; i++) got[ev[i].ident - 10]++;
    for (int i = 0; i < 2; i++) need(m == LEVEL ? got[i] >= 1 : got[i] == 1, "user event %d was triggered once and reported %d times", i, got[i]);
    cl.finish({ kq });
}
// a thread waiting on one kqueue must not delay another thread on another kqueue
void other_queue(int what)
{
    Cleanup cl;
    rt::sched_explore = false;
    int a = rt::kq_open(), b = rt::kq_open(), p[2];
    mkpipe(p);
    need(chg(a, p[0], EVFILT_READ, EV_ADD, 0, 0, (void *)1) == 0, "add failed");
    rt::sched_explore = true;
    int t = spawn([=] { struct kevent ev[2]; int n = get(a, ev, 2, nullptr); need(n == 1 && ev[0].udata == (void *)1, "waiter got %d", n); }, "waiter");
    std::vector<int> extra;
    if (what == 0) {
        struct kevent ev[2];
        need(chg(b, 3, EVFILT_USER, EV_ADD, 0, 0, (void *)2) == 0, "add failed");
        need(chg(b, 3, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)2) == 0, "trigger failed");
        int n = get(b, ev, 2);
        need(n == 1 && ev[0].udata == (void *)2, "collect returned %d", n);
        need(chg(b, 3, EVFILT_USER, EV_DELETE) == 0, "delete failed");
    } else if (what == 1) {
        int c = rt::kq_open();
        need(c >= 0, "kqueue() failed");
        struct kevent ev[2];
        need(get(c, ev, 2) == 0, "a new kqueue is not empty");
        rt::kq_close(c);
    } else if (what == 2) {      // the same descriptor in the other kqueue
        struct kevent ev[2];
        need(chg(b, p[0], EVFILT_READ, EV_ADD, 0, 0, (void *)5) == 0, "add failed");
        put(p[1]);
        int n = get(b, ev, 2);
        need(n == 1 && ev[0].udata == (void *)5, "collect returned %d", n);
        need(chg(b, p[0], EVFILT_READ, EV_DELETE) == 0, "delete failed");
    } else if (what == 3) {      // close of another kqueue with a registration
        int c = rt::kq_open();
        need(c >= 0, "kqueue() failed");
        need(chg(c, 3, EVFILT_USER, EV_ADD, 0, 0, (void *)2) == 0, "add failed");
        rt::kq_close(c);
        int d = rt::kq_open();
        need(d >= 0, "kqueue() failed");
        struct kevent ev[2];
        need(get(d, ev, 2) == 0, "a new kqueue is not empty");
        extra.push_back(d);
    }
    rt::sched_point("put");
    if (what != 2) put(p[1]);
    rt::sched_join(t);
    extra.push_back(a); extra.push_back(b);
    cl.finish(extra);
}
// first use of the library by several threads at once
void first_use(int nthr, bool closing, bool use)
{
    static int kqs[3];
    std::vector<int> ids;
    for (int t = 0; t < nthr; t++) ids.push_back(spawn([=] {
        int k = rt::kq_open();
        need(k >= 0, "kqueue() failed: errno %d", errno);
        kqs[t] = k;
        if (use) {
            struct kevent ev[2];
            need(chg(k, 1, EVFILT_USER, EV_ADD, 0, 0, (void *)(uintptr_t)(t + 1)) == 0, "add failed");
            need(chg(k, 1, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)(uintptr_t)(t + 1)) == 0, "trigger failed");
            int n = get(k, ev, 2);
            need(n == 1 && ev[0].udata == (void *)(uintptr_t)(t + 1), "collect returned %d", n);
        }
        if (closing) rt::kq_close(k);
    }, t == 0 ? "T1" : t == 1 ? "T2" : "T3"));
    for (int t : ids) rt::sched_join(t);
    rt::sched_explore = false;
    rt::sched_quiesce();
    if (!closing) {
        for (int t = 0; t < nthr; t++) for (int u = 0; u < t; u++) need(kqs[t] != kqs[u], "two threads were given the same kqueue");
        for (int t = 0; t < nthr; t++) { struct kevent ev[2]; int n = get(kqs[t], ev, 2); need(n == (use ? 1 : 0), "kqueue of thread %d: collect returned %d", t, n); }
        for (int t = 0; t < nthr; t++) rt::kq_close(kqs[t]);
        rt::sched_quiesce();
    }
    check_rt("first use");
    need(rt::ledger().fds == 0, "descriptors left: %s", rt::ledger_detail().c_str());
    int k = rt::kq_open();
    need(k >= 0, "kqueue() failed");
    struct kevent ev[2];
    need(get(k, ev, 2) == 0, "a new kqueue is not empty");
}
// one timer, two collectors: every expiry is reported once
void timer_share(bool oneshot)
{
    Cleanup cl;
    rt::sched_explore = false;
    int kq = rt::kq_open();
    need(chg(kq, 1, EVFILT_TIMER, EV_ADD | (oneshot ? EV_ONESHOT : 0), 0, 10, (void *)1) == 0, "add failed");
    static long total; static int calls;
    rt::sched_explore = true;
    auto body = [=] { for (int i = 0; i < 2; i++) { struct kevent ev[2]; rt::sched_point("tick"); rt::vclock_advance(5000000); int n = get(kq, ev, 2); need(n >= 0, "collect failed"); if (n) { total += ev[0].data; calls++; } } };
    int a = spawn(body, "T1"), b = spawn(body, "T2");
    rt::sched_join(a); rt::sched_join(b);
    struct kevent ev[2];
    int n = get(kq, ev, 2);
    note(calls);
    if (n > 0) { total += ev[0].data; calls++; }
    need(total == (oneshot ? 1 : 2), "two periods elapsed, %ld expirations were reported in %d events", total, calls);
    cl.finish({ kq });
}
// read and write registrations of one descriptor handled by different threads
void rw_share(const char *p1, const char *p2, unsigned fl)
{
    Cleanup cl;
    rt::sched_explore = false;
    int kq = rt::kq_open();
    static int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv)) sfail("harness socketpair");
    put(sv[1]);
    static bool ar, aw;      // final presence, each registration is changed by one thread only
    auto prog = [=](const char *p, short f, bool *pres) {
        for (; *p; p++) {
            if (*p == 'A') { need(chg(kq, sv[0], f, EV_ADD | fl, 0, 0, (void *)(uintptr_t)(f == EVFILT_READ ? 1 : 2)) == 0, "add failed"); *pres = true; }
            if (*p == 'D') { int r = chg(kq, sv[0], f, EV_DELETE); need(r == (*pres ? 0 : ENOENT), "delete returned %d", r); *pres = false; }
            if (*p == 'X') { int r = chg(kq, sv[0], f, EV_DISABLE); need(r == (*pres ? 0 : ENOENT), "disable returned %d", r); }
            if (*p == 'E') { int r = chg(kq, sv[0], f, EV_ENABLE); need(r == (*pres ? 0 : ENOENT), "enable returned %d", r); }
        }
    };
    rt::sched_explore = true;
    int a = spawn([=] { prog(p1, EVFILT_READ, &ar); }, "T1"), b = spawn([=] { prog(p2, EVFILT_WRITE, &aw); }, "T2");
    rt::sched_join(a); rt::sched_join(b);
    struct kevent ev[4];
    int n = get(kq, ev, 4);
    need(n >= 0, "collect failed");
    int r = 0, w = 0;
    for (int i = 0; i < n; i++) { if (ev[i].filter == EVFILT_READ) { r++; need(ev[i].udata == (void *)1, "udata"); } else { w++; need(ev[i].udata == (void *)2, "udata"); } }
    bool er = ar && (!strrchr(p1, 'X') || (strrchr(p1, 'E') && strrchr(p1, 'E') > strrchr(p1, 'X')) || strrchr(p1, 'A') > strrchr(p1, 'X'));
    bool ew = aw && (!strrchr(p2, 'X') || (strrchr(p2, 'E') && strrchr(p2, 'E') > strrchr(p2, 'X')) || strrchr(p2, 'A') > strrchr(p2, 'X'));
    need(r == er && w == ew, "registrations READ=%d WRITE=%d enabled, events READ=%d WRITE=%d", er, ew, r, w);
    note(r * 10 + w);
    cl.finish({ kq });
}
// one occurrence, two collectors that poll: handed out exactly once
void share(const char *kind)
{
    Cleanup cl;
    rt::sched_explore = false;
    std::string k = kind;
    sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGUSR1); pthread_sigmask(SIG_BLOCK, &ss, nullptr);
    int kq = rt::kq_open(), p[2];
    mkpipe(p);
    pid_t pid = -1;
    int fd = -1, gate[2];
    static int fds[1];
    if (k == "signal") need(chg(kq, SIGUSR1, EVFILT_SIGNAL, EV_ADD, 0, 0, (void *)1) == 0, "add failed");
    else if (k == "proc") {
        if (pipe(gate)) sfail("harness pipe");
        pid = fork();
        if (pid == 0) { char c; (void)!read(gate[0], &c, 1); _exit(3); }
        need(chg(kq, pid, EVFILT_PROC, EV_ADD, NOTE_EXIT, 0, (void *)1) == 0, "add failed");
    } else if (k == "vnode") {
        char nm[] = "./vn.XXXXXX";
        fd = mkstemp(nm); unlink(nm);
        fds[0] = fd;
        need(chg(kq, fd, EVFILT_VNODE, EV_ADD | EV_CLEAR, NOTE_WRITE, 0, (void *)1) == 0, "add failed");
    } else need(chg(kq, p[0], EVFILT_READ, EV_ADD | (k == "oneshot" ? EV_ONESHOT : k == "dispatch" ? EV_DISPATCH : EV_CLEAR), 0, 0, (void *)1) == 0, "add failed");
    static int got; static long data;
    rt::sched_explore = true;
    auto body = [=] { for (int i = 0; i < 2; i++) { struct kevent ev[2]; int n = get(kq, ev, 2); need(n >= 0 && n <= 1, "collect returned %d", n); if (n) { need(ev[0].udata == (void *)1 && !(ev[0].flags & EV_ERROR), "event does not match its registration"); got++; data = ev[0].data; } } };
    int a = spawn(body, "T1"), b = spawn(body, "T2");
    rt::sched_point("occurrence");
    if (k == "signal") kill(getpid(), SIGUSR1);
    else if (k == "proc") { put(gate[1]); siginfo_t si; waitid(P_PID, pid, &si, WEXITED | WNOWAIT); }
    else if (k == "vnode") { if (write(fd, "x", 1) != 1) sfail("harness write"); }
    else put(p[1]);
    rt::sched_join(a); rt::sched_join(b);
    note(got);
    struct kevent ev[2];
    for (int i = 0; i < 3 && !got; i++) { int n = get(kq, ev, 2); need(n >= 0, "collect failed"); if (n) { got++; data = ev[0].data; } }
    need(got == 1, "one occurrence was handed out %d times", got);
    if (k == "proc") { int st = -1; need(WIFEXITED(data) && WEXITSTATUS(data) == 3, "exit status %#lx", data); need(waitpid(pid, &st, 0) == pid && WEXITSTATUS(st) == 3, "the child was reaped"); }
    need(get(kq, ev, 2) == 0, "the occurrence is reported once more");
    cl.finish({ kq });
}
// two threads, each working on a kqueue of its own: what each of them sees is what it would see alone
void own_prog(int t, const std::string &prog)
{
    int kq = rt::kq_open();
    need(kq >= 0, "kqueue() failed");
    auto U = [=](int n) { return (void *)(uintptr_t)(t * 100 + n); };
    int p[2]; mkpipe(p);
    bool au = false, ar = false, trig = false, data = false;
    for (char c : prog) switch (c) {
    case 'u': need(chg(kq, 7, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, U(1)) == 0, "add failed"); au = true; break;
    case 't': need(chg(kq, 7, EVFILT_USER, 0, NOTE_TRIGGER, 0, U(1)) == 0, "trigger failed"); trig = true; break;
    case 'r': need(chg(kq, p[0], EVFILT_READ, EV_ADD, 0, 0, U(2)) == 0, "add failed"); ar = true; break;
    case 'w': put(p[1]); data = true; break;
    case 'd': need(chg(kq, 7, EVFILT_USER, EV_DELETE) == (au ? 0 : ENOENT), "delete"); au = trig = false; break;
    case 'c': case '1': {
        struct kevent ev[4];
        int max = c == '1' ? 1 : 4, n = get(kq, ev, max), want = (au && trig) + (ar && data);
        need(n == (want < max ? want : max), "thread %d: collect on its own kqueue returned %d, %d pending", t, n, want);
        bool seen[3] = {};
        for (int i = 0; i < n; i++) {
            int w = ev[i].filter == EVFILT_USER ? 1 : 2;
            need(ev[i].udata == U(w) && ev[i].ident == (w == 1 ? 7 : (uintptr_t)p[0]) && (w == 1 ? au && trig : ar && data && ev[i].data == 1) && !seen[w], "thread %d: its kqueue reports ident %lu filter %d udata %p", t, (unsigned long)ev[i].ident, ev[i].filter, ev[i].udata);
            seen[w] = true;
        }
        if (seen[1]) trig = false;
        break;
    }
    }
    rt::kq_close(kq);
    close(p[0]); close(p[1]);
}
void own(std::vector<std::string> progs)
{
    Cleanup cl;
    rt::sched_explore = false;
    int kq = rt::kq_open();                     // keeps the background thread alive throughout
    rt::sched_explore = true;
    std::vector<int> ids;
    for (size_t i = 0; i < progs.size(); i++) { auto pr = progs[i]; int t = i + 1; ids.push_back(spawn([=] { own_prog(t, pr); }, t == 1 ? "T1" : t == 2 ? "T2" : "T3")); }
    for (int i : ids) rt::sched_join(i);
    cl.finish({ kq });
}
// a kqueue is closed with registrations on descriptors that are closed right afterwards, and whose numbers are taken by something else
void reuse(const std::string &regs, int what, int taker)
{
    Cleanup cl;
    rt::sched_explore = false;
    int kq = rt::kq_open(), kq2 = rt::kq_open();
    int f[2];
    char nm[] = "./ru.XXXXXX";
    auto mk = [&](int *f) {
        if (what == 0) mkpipe(f);
        else if (what == 1) { if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, f)) sfail("harness socketpair"); }
        else { f[0] = mkstemp(nm); f[1] = dup(f[0]); }
    };
    mk(f);
    for (char c : regs) {
        int r = 0;
        if (c == 'r') r = chg(kq, f[0], EVFILT_READ, EV_ADD, 0, 0, (void *)1);
        if (c == 'w') r = chg(kq, f[0], EVFILT_WRITE, EV_ADD, 0, 0, (void *)2);
        if (c == 'R') r = chg(kq, f[0], EVFILT_READ, EV_ADD | EV_DISABLE, 0, 0, (void *)1);
        if (c == 'W') r = chg(kq, f[1], EVFILT_WRITE, EV_ADD | EV_CLEAR, 0, 0, (void *)2);
        if (c == 'v') r = chg(kq, f[0], EVFILT_VNODE, EV_ADD | EV_CLEAR, NOTE_WRITE, 0, (void *)3);
        need(r == 0, "adding failed with errno %d", r);
    }
    if (what == 2) unlink(nm);
    struct kevent ev[4];
    rt::sched_explore = true;
    rt::kq_close(kq);
    rt::sched_point("closing the watched descriptors");
    close(f[0]); close(f[1]);
    rt::sched_point("taking their numbers");
    int g[2], h = -1;
    if (taker == 1) { char nm[] = "./ru.XXXXXX"; h = mkstemp(nm); unlink(nm); }
    if (taker == 2) h = rt::kq_open();
    mkpipe(g);
    need(chg(kq2, g[0], EVFILT_READ, EV_ADD, 0, 0, (void *)9) == 0, "adding failed");
    put(g[1]);
    int n = get(kq2, ev, 4);
    need(n == 1 && ev[0].udata == (void *)9 && ev[0].data == 1, "the other kqueue reports %d events", n);
    rt::sched_explore = false;
    rt::sched_quiesce();
    n = get(kq2, ev, 4);
    need(n == 1 && ev[0].udata == (void *)9 && ev[0].data == 1, "the other kqueue reports %d events after the first one is gone", n);
    need(fcntl(g[0], F_GETFD) >= 0 && fcntl(g[1], F_GETFD) >= 0 && (h < 0 || fcntl(h, F_GETFD) >= 0), "a descriptor of the program was closed");
    if (taker == 2) { need(get(h, ev, 4) == 0, "a new kqueue is not empty"); rt::kq_close(h); }
    cl.finish({ kq2 });
}
RegFam f5("reuse", false, [](std::vector<Scn> &v, int l) {
    for (int t = 0; t < 3; t++) for (int w = 0; w < 3; w++) for (std::string r : { "r", "rW", "rw", "wr", "Rw", "v", "rv", "rwv", "R" }) {
        if (w == 0 && r.find('w') != std::string::npos) continue;
        if (w != 2 && r.find('v') != std::string::npos) continue;
        v.push_back({ sf("%d/%s/%d", w, r.c_str(), t), [=] { reuse(r, w, t); } });
    }
});
// the locking option is switched while other threads work
void option(const std::string &p1, const std::string &p2, bool same)
{
    Cleanup cl;
    rt::sched_explore = false;
    int kq = rt::kq_open(), kq2 = same ? kq : rt::kq_open();
    auto prog = [](int kq, const std::string &p, int id) {
        bool trig = false;
        struct kevent ev[4];
        need(chg(kq, id, EVFILT_USER, EV_ADD | EV_CLEAR, 0, 0, (void *)(uintptr_t)id) == 0, "add failed");
        for (char c : p) switch (c) {
        case '0': case '1': need(chg(kq, 0, EVFILT_LIBKQUEUE, EV_ADD, NOTE_THREAD_SAFE, c - '0') == 0, "switching the option failed"); break;
        case 't': need(chg(kq, id, EVFILT_USER, 0, NOTE_TRIGGER, 0, (void *)(uintptr_t)id) == 0, "trigger failed"); trig = true; break;
        case 'c': { int n = get(kq, ev, 4); need(n >= 0, "collect failed"); for (int i = 0; i < n; i++) need(ev[i].udata == (void *)(uintptr_t)ev[i].ident, "udata"); break; }
        case 'o': { int k = rt::kq_open(); need(k >= 0, "kqueue() failed"); rt::kq_close(k); break; }
        }
        (void)trig;
        need(chg(kq, id, EVFILT_USER, EV_DELETE) == 0, "delete failed");
    };
    rt::sched_explore = true;
    int a = spawn([=] { prog(kq, p1, 11); }, "T1"), b = spawn([=] { prog(kq2, p2, 12); }, "T2");
    rt::sched_join(a); rt::sched_join(b);
    rt::sched_explore = false;
    int k = rt::kq_open();
    need(k >= 0, "kqueue() failed");
    rt::kq_close(k);
    need(chg(kq, 0, EVFILT_LIBKQUEUE, EV_ADD, NOTE_THREAD_SAFE, 1) == 0, "switching the option failed");
    need(chg(kq, 0, EVFILT_LIBKQUEUE, EV_DELETE) == 0, "delete failed");
    if (!same) { chg(kq2, 0, EVFILT_LIBKQUEUE, EV_DELETE); rt::kq_close(kq2); }
    cl.finish({ kq });
}
RegFam f6("option", false, [](std::vector<Scn> &v, int l) {
    std::vector<std::string> qs = { "0", "01", "10" }, ps = { "tc", "c" };
    if (l >= 1) { qs.push_back("010"); ps.push_back("tctc"); }
    for (auto &q : qs) for (auto &p : ps) for (int s = 0; s < 2; s++) v.push_back({ sf("%s|%s/%d", q.c_str(), p.c_str(), s), [=] { option(q, p, s); } });
});
RegFam f4("own", false, [](std::vector<Scn> &v, int l) {
    std::vector<std::string> ps = { "utc", "rwc", "utrwcd" };
    if (l >= 1) { ps.push_back("utrw1c"); ps.push_back("utccrw"); }
    if (l == 9) for (auto x : { "c", "uc", "utc", "rc", "rwc", "" }) { std::string a = x; v.push_back({ a, [=] { own({ a }); } }); }
    if (l < 9) for (size_t i = 0; i < ps.size(); i++) for (size_t j = i; j < ps.size(); j++) { auto a = ps[i], b = ps[j]; v.push_back({ a + "|" + b, [=] { own({ a, b }); } }); }
});
RegFam f3("conc", false, [](std::vector<Scn> &v, int l) {
    for (int m = 0; m < 4; m++) for (int ne = 1; ne <= 2; ne++) v.push_back({ sf("waiters2/%s/%d", mode_name[m], ne), [=] { waiters(2, (Mode)m, ne); } });
    if (l >= 1) for (int m = 0; m < 4; m++) v.push_back({ sf("waiters3/%s/1", mode_name[m]), [=] { waiters(3, (Mode)m, 1); } });
    for (int m = 0; m < 4; m++) v.push_back({ sf("triggers/%s", mode_name[m]), [=] { trig_many((Mode)m); } });
    for (int w = 0; w < 4; w++) v.push_back({ sf("otherqueue/%d", w), [=] { other_queue(w); } });
    for (int n = 2; n <= (l >= 1 ? 3 : 2); n++) for (int c = 0; c < 2; c++) for (int u = 0; u < 2; u++) { if (n == 3 && u) continue; Scn s{ sf("firstuse/%d/%d/%d", n, c, u), [=] { first_use(n, c, u); } }; s.spurious = 1; v.push_back(s); }
    for (auto k : { "signal", "proc", "oneshot", "dispatch", "clear" }) v.push_back({ sf("share/%s", k), [=] { share(k); } });
    for (int o = 0; o < 2; o++) v.push_back({ sf("timer/%d", o), [=] { timer_share(o); } });
    for (const char *a : { "A", "AD", "AX", "AXE" }) for (const char *b : { "A", "AD", "AX", "ADA" }) v.push_back({ sf("rw/%s|%s", a, b), [=] { rw_share(a, b, 0); } });
});
} // namespace
