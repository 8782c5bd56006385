// Histories of recorded findings (known_findings.txt): each one ends in the recorded failure on the
// unchanged tree.  Replayed to print KNOWN-FINDING lines, never explored as part of a property.
#include "sched.h"
#include <fcntl.h>
#include <signal.h>

namespace {
// a thread waits in kevent() without a timeout; another thread triggers an event in the same kqueue
void block_trigger()
{
    int kq = rt::kq_open();
    need(chg(kq, 1, EVFILT_USER, EV_ADD | EV_CLEAR) == 0, "add failed");
    int t = spawn([=] { struct kevent ev[2]; int n = get(kq, ev, 2, nullptr); need(n == 1, "waiter got %d", n); }, "waiter");
    rt::sched_quiesce();
    need(chg(kq, 1, EVFILT_USER, 0, NOTE_TRIGGER) == 0, "trigger failed");
    rt::sched_join(t);
}
// ... the application closes the kqueue being waited on and goes on with another one
void block_close()
{
    int kq = rt::kq_open(), k2 = rt::kq_open();
    need(chg(kq, 1, EVFILT_USER, EV_ADD | EV_CLEAR) == 0, "add failed");
    spawn([=] { struct kevent ev[2]; (void)get(kq, ev, 2, nullptr); }, "waiter");
    rt::sched_quiesce();
    rt::kq_close(kq);
    rt::sched_quiesce();
    need(chg(k2, 1, EVFILT_USER, EV_ADD) == 0, "add to another kqueue failed");
}
// one signal, registered in two kqueues
void signal_two()
{
    sigset_t s; sigemptyset(&s); sigaddset(&s, SIGUSR1); sigprocmask(SIG_BLOCK, &s, nullptr);
    int a = rt::kq_open(), b = rt::kq_open();
    for (int k : { a, b }) need(chg(k, SIGUSR1, EVFILT_SIGNAL, EV_ADD) == 0, "add failed");
    kill(getpid(), SIGUSR1);
    struct kevent ev[2];
    int n = get(a, ev, 2), m = get(b, ev, 2);
    need(n == 1 && m == 1, "one signal, registered in two kqueues, is reported %d and %d times", n, m);
}
RegFam f("kf", false, [](std::vector<Scn> &v, int) {
    v.push_back({ "block_trigger", block_trigger });
    v.push_back({ "block_close", block_close });
    v.push_back({ "signal_two", signal_two });
});
} // namespace
