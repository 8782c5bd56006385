#include "rt.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <map>

#define W(ret, name, args) extern "C" ret __real_##name args; extern "C" ret __wrap_##name args

namespace rt {

Mode mode = PASS;
thread_local int inlib = 0;
thread_local bool is_bg = false;          // a thread the library started
std::vector<std::string> faults_seen;
bool blocked_forever = false, block_is_ok = false;
bool guard_alloc = false;
bool yield_on_all = true;

struct SpinLock {
    std::atomic_flag f = ATOMIC_FLAG_INIT;
    void lock() { while (f.test_and_set(std::memory_order_acquire)) sched_yield(); }
    void unlock() { f.clear(std::memory_order_release); }
};
static SpinLock lk;
struct G { G() { lk.lock(); } ~G() { lk.unlock(); } };

static long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static bool fd_ready(int fd, short ev)
{
    struct pollfd p = { fd, ev, 0 };
    struct timespec z = { 0, 0 };
    return rsys(SYS_ppoll, (long)&p, 1, (long)&z, 0, 8) > 0;
}

void complain(const char *fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    int save = inlib; inlib = 0;
    { G g; faults_seen.push_back(buf); }
    inlib = save;
}

// ---------------------------------------------------------------- ledger
enum { MAXFD = 4096 };
static uint8_t own[MAXFD];                // 1: opened by the library
static const char *ownkind[MAXFD];
int fake_pid, fake_code, fake_status;
int closing = 0;                          // library threads inside close(): it can take seconds for an inotify descriptor on a loaded machine
static long own_fds = 0, own_blocks = 0;

static void fd_open(int fd, const char *kind)
{
    if (fd < 0 || fd >= MAXFD) return;
    G g;
    if (!own[fd]) own_fds++;
    own[fd] = 1; ownkind[fd] = kind;
}
static bool fd_drop(int fd)
{
    G g;
    if (fd < 0 || fd >= MAXFD || !own[fd]) return false;
    own[fd] = 0; own_fds--;
    return true;
}
bool ledger_owns(int fd) { G g; return fd >= 0 && fd < MAXFD && own[fd]; }
void ledger_user_close(int fd) { fd_drop(fd); }
long ledger_kind(const char *k) { G g; long n = 0; for (int i = 0; i < MAXFD; i++) if (own[i] && ownkind[i] && !strcmp(ownkind[i], k)) n++; return n; }
Ledger ledger() { G g; return { own_fds, own_blocks }; }
static void *ptab[1 << 16];
static size_t psz[1 << 16];
std::string ledger_detail()
{
    G g;
    std::string s = "fds:";
    for (int i = 0; i < MAXFD; i++) if (own[i]) s += " " + std::to_string(i) + "=" + (ownkind[i] ? ownkind[i] : "?");
    s += " blocks=" + std::to_string(own_blocks);
    if (own_blocks > 0 && own_blocks < 12) { s += ", sizes"; for (int i = 0; i < 1 << 16; i++) if ((uintptr_t)ptab[i] > 1) s += " " + std::to_string(psz[i]); }
    return s;
}
bool ledger_check_cloexec(std::string &why)
{
    G g;
    for (int i = 0; i < MAXFD; i++) if (own[i]) {
        long r = rsys(SYS_fcntl, i, F_GETFD);
        if (r >= 0 && !(r & FD_CLOEXEC)) { why = std::string("library descriptor (") + ownkind[i] + ") is not close-on-exec"; return false; }
    }
    return true;
}
void ledger_forget_all() {}

// ---------------------------------------------------------------- virtual clock
int64_t vnow;
const int64_t REAL_OFF = 1600000000LL * 1000000000LL;
static const int64_t T0 = 1000LL * 1000000000LL;
struct VTimer { bool used, armed, expired; int clk; int64_t next, interval; };
static VTimer vt[MAXFD];
static int vt_used_max = 0;

// As the kernel's timerfd: the first expiry wakes the waiters; further periods are only counted
// when the timer is read.
static void vt_fire(int fd)
{
    VTimer &t = vt[fd];
    if (!t.used || !t.armed || t.expired || t.next > vnow) return;
    t.expired = true;
    uint64_t n = 1;
    rsys(SYS_write, fd, (long)&n, 8);
}
static long vt_read(int fd, void *b, size_t sz)
{
    VTimer &t = vt[fd];
    if (sz < 8) return -EINVAL;
    if (!t.expired) return -EAGAIN;
    uint64_t n, junk;
    rsys(SYS_read, fd, (long)&junk, 8);
    n = 1;
    t.expired = false;
    if (t.interval > 0) { n += (uint64_t)((vnow - t.next) / t.interval); t.next += (int64_t)n * t.interval; }
    else t.armed = false;
    memcpy(b, &n, 8);
    return 8;
}
int64_t intr_at = -1;
std::vector<EnvEvent> env_at;
void vclock_reset() { vnow = T0; intr_at = -1; env_at.clear(); }
static int64_t vt_next()
{
    int64_t best = -1;
    for (int i = 0; i < vt_used_max; i++) if (vt[i].used && vt[i].armed && !vt[i].expired && (best < 0 || vt[i].next < best)) best = vt[i].next;
    return best;
}
int vtimers_armed() { return vt_next() >= 0; }
void vclock_advance(int64_t dt)
{
    vnow = dt > INT64_MAX - vnow ? INT64_MAX : vnow + dt;
    for (int i = 0; i < vt_used_max; i++) if (vt[i].used) vt_fire(i);
}

// ---------------------------------------------------------------- faults
std::vector<CallRec> calls;
bool record_calls = false;
std::vector<Inject> injects;
long call_no = 0;
int injected = 0, last_err = 0;
long rlim_override = -1;
static bool faults_on = false;
static int zero_next = 0;
static const char *sn[] = { "none", "epoll_create", "epoll_ctl", "epoll_wait", "ppoll", "pipe", "eventfd", "timerfd_create",
  "timerfd_settime", "signalfd", "inotify_init", "inotify_add_watch", "fcntl", "read", "write", "ioctl", "fstat", "lseek",
  "getsockopt", "waitid", "syscall", "malloc", "pthread_create", "readlink", "sigmask", "getrlimit", "close", "mmap" };
const char *site_name(int s) { return sn[s]; }
void fault_begin(const std::vector<Inject> &v, bool record) { calls.clear(); injects = v; call_no = 0; injected = 0; record_calls = record; faults_on = true; }
void fault_end() { faults_on = false; }
void fault_resume() { faults_on = true; }
long mid_at = -1, mid_no; bool mid_busy; std::function<void()> mid_f;
static int fault(Site s, int arg = 0)
{
    if (mid_at >= 0 && mode == SEQ && !is_bg && s != S_MALLOC && mid_no++ == mid_at) { int save = inlib, e = errno; inlib = 0; mid_at = -1; mid_f(); inlib = save; errno = e; }
    if (!faults_on) return 0;
    if (mode == SEQ && is_bg) return 0;
    long n = call_no++;
    int save = inlib; inlib = 0;
    if (record_calls) calls.push_back({ s, arg });
    int e = 0;
    for (auto &i : injects) if (i.at == n) { if (i.err >= FD_ZERO) zero_next = i.err - FD_ZERO + 1; else { e = last_err = i.err; injected++; } }
    inlib = save;
    return e;
}
// not a failure but a legal answer: the new descriptor is number 0 (another part of the program has just closed standard input)
static int lowfd(int r, int which = 1)
{
    if (zero_next != which || r < 0) return r;
    zero_next = 0;
    if (r == 0 || ledger_owns(0)) return r;
    int fl = rsys(SYS_fcntl, r, F_GETFD, 0);
    if (rsys(SYS_dup3, r, 0, fl & FD_CLOEXEC ? O_CLOEXEC : 0) < 0) return r;
    rsys(SYS_close, r, 0, 0);
    return 0;
}
unsigned long filtered_ino;  // the socket that is taken to have a packet filter (attaching real ones by the thousand can block the kernel)
int pipe_at = -1;      // the number the write end of the next pipe gets (sequential mode)
static int farfd(int r)
{
    int want = pipe_at; pipe_at = -1;
    if (want < 0) return r;
    int n = rsys(SYS_fcntl, r, F_DUPFD_CLOEXEC, want);
    if (n < 0) return r;
    rsys(SYS_close, n == want ? r : n, 0, 0);
    return n == want ? n : r;
}
#define FAULT(site, arg, failval) do { int _e = fault(site, arg); if (_e) { errno = _e; return failval; } } while (0)

// ---------------------------------------------------------------- scheduler
enum Kind { K_RUN, K_LOCK, K_COND, K_JOIN, K_SIGWAIT, K_POLL, K_QUIESCE, K_DONE };
struct Thr {
    int go; bool used; Kind k; const void *obj; int fd; short pev; bool timed; sigset_t set;
    const char *what; const char *name; int tid; pthread_t pt; bool signalled; bool cancel_req; int cstate; bool detached; bool was_cancelled; int join_target;
    bool gone; bool user;
    void *(*fn)(void *); void *arg; void (*ufn)(void *); int inlib0;
};
static Thr th[16];
static int nth = 0;
static thread_local int self_id = -1;
static const uint8_t *prefix; static int nprefix; static Trace *trace;
long sched_steps = 0;
int spurious_budget = 0;
void (*sched_on_deadlock)(const std::string &) = nullptr;
static std::map<const void *, int> *mtx;        // address -> owner
static bool sig_dirty = true;

void (*hb_hook)(Hb, const void *, int) = nullptr;
void (*buf_hook)(const void *, size_t, void *) = nullptr;
static inline void hb(Hb op, const void *obj, int other = 0)
{
    if (!hb_hook) return;
    int save = inlib; inlib = 0; hb_hook(op, obj, other); inlib = save;
}
static void fwait(int *w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) rsys(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0); __atomic_store_n(w, 0, __ATOMIC_RELEASE); }
static void fwake(int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); rsys(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1); }

static bool sig_pending(Thr &t)
{
    char p[64], b[2048];
    snprintf(p, sizeof p, "/proc/self/task/%d/status", t.tid);
    int fd = rsys(SYS_openat, AT_FDCWD, (long)p, O_RDONLY);
    if (fd < 0) return false;
    long n = rsys(SYS_read, fd, (long)b, sizeof b - 1);
    rsys(SYS_close, fd);
    if (n <= 0) return false;
    b[n] = 0;
    uint64_t m = 0;
    if (char *s = strstr(b, "SigPnd:")) m |= strtoull(s + 7, 0, 16);
    if (char *s = strstr(b, "ShdPnd:")) m |= strtoull(s + 7, 0, 16);
    for (int i = 1; i <= 64; i++) if ((m >> (i - 1)) & 1) if (sigismember(&t.set, i) == 1) return true;
    return false;
}
static bool cancel_now(Thr &t) { return t.cancel_req && t.cstate == PTHREAD_CANCEL_ENABLE; }
// 2 strong, 1 weak (needs time to pass / a spurious wakeup / everybody else idle), 0 blocked
static int enabled(int i)
{
    Thr &t = th[i];
    if (!t.used || t.gone) return 0;
    switch (t.k) {
    case K_RUN: return 2;
    case K_LOCK: { auto it = mtx->find(t.obj); return it == mtx->end() || it->second < 0 ? 2 : 0; }
    case K_COND: return t.signalled ? 2 : (spurious_budget > 0 ? 1 : 0);
    case K_JOIN: return th[t.join_target].k == K_DONE ? 2 : 0;
    case K_SIGWAIT: if (cancel_now(t)) return 2; return sig_pending(t) ? 2 : 0;
    case K_POLL: if (cancel_now(t) || fd_ready(t.fd, t.pev)) return 2; return t.timed || (vt_used_max && vtimers_armed()) ? 1 : 0;
    case K_QUIESCE: return 1;
    case K_DONE: return 0;
    }
    return 0;
}
std::string sched_dump()
{
    static const char *kn[] = { "run", "mutex", "cond", "join", "sigwait", "wait", "quiesce", "done" };
    std::string s;
    for (int i = 0; i < nth; i++) {
        s += std::string(i ? "; " : "") + th[i].name + ":" + (th[i].gone ? "gone" : kn[th[i].k]) + "(" + (th[i].what ? th[i].what : "") + ")";
        if (th[i].k == K_LOCK && mtx->count(th[i].obj) && (*mtx)[th[i].obj] >= 0) s += std::string(" held by ") + th[(*mtx)[th[i].obj]].name;
    }
    return s;
}
bool sched_explore = true;
static int pick(int cur)
{
    int en[16], n = 0; bool weak = true; int lvl[16];
    for (int i = 0; i < nth; i++) { lvl[i] = enabled(i); if (lvl[i] == 2) weak = false; }
    // weak quiesce must not be an alternative while anything strong exists
    for (int i = 0; i < nth; i++) {
        if (lvl[i] == 2) en[n++] = i;
        else if (lvl[i] == 1 && (weak || th[i].k != K_QUIESCE)) en[n++] = i;
    }
    if (weak) { // prefer the quiescing thread over letting time pass
        for (int i = 0; i < n; i++) if (th[en[i]].k == K_QUIESCE) return en[i];
    }
    sched_steps++;
    if (n == 0) {
        std::string why = sched_dump();
        if (sched_on_deadlock) sched_on_deadlock(why);
        fprintf(stderr, "deadlock: %s\n", why.c_str());
        _exit(99);
    }
    if (n == 1) return en[0];
    // default: stay on the current thread, else the next strong one after it, else weak
    int def = -1;
    if (cur >= 0 && lvl[cur] == 2) def = cur;
    if (def < 0) for (int d = 1; d <= nth && def < 0; d++) { int i = (cur + d + nth) % nth; if (lvl[i] == 2) def = i; }
    if (def < 0) def = en[0];
    int ch = def;
    if (!sched_explore) return def;
    int pos = trace->n;
    if (pos < nprefix) {
        int want = prefix[pos];
        bool ok = false;
        for (int i = 0; i < n; i++) if (en[i] == want) ok = true;
        if (!ok) { if (sched_on_deadlock) { static char b[1000]; snprintf(b, sizeof b, "!replay divergence at %d: wanted %d; %s", pos, want, sched_dump().c_str()); sched_on_deadlock(b); } _exit(98); }
        ch = want;
    }
    if (pos < (int)(sizeof trace->c / sizeof trace->c[0])) {
        Choice &c = trace->c[pos];
        c.n = n > 8 ? 8 : n; c.chosen = ch; c.cur = cur < 0 ? 255 : cur; c.cur_enabled = cur >= 0 && lvl[cur] == 2;
        for (int i = 0; i < c.n; i++) c.en[i] = en[i];
        trace->n++;
    } else { trace->truncated = 1; if (sched_on_deadlock) sched_on_deadlock("the execution does not come to an end (livelock)"); _exit(97); }
    return ch;
}
static void yield_to_next(int me)
{
    int save = inlib; inlib = 0;
    int e = errno;
    int nx = pick(me);
    if (nx != me) { fwake(&th[nx].go); fwait(&th[me].go); }
    if (th[me].k == K_COND && !th[me].signalled) { spurious_budget--; }
    th[me].k = K_RUN;
    errno = e;
    inlib = save;
}
static inline bool sched_active() { return mode == SCHED && self_id >= 0; }
static void point(const char *what)
{
    if (!sched_active() || !yield_on_all) return;
    Thr &t = th[self_id]; t.k = K_RUN; t.what = what;
    yield_to_next(self_id);
}
void sched_point(const char *what)
{
    if (!sched_active()) return;
    Thr &t = th[self_id]; t.k = K_RUN; t.what = what;
    yield_to_next(self_id);
}
static void block(Kind k, const void *obj, const char *what)
{
    Thr &t = th[self_id]; t.k = k; t.obj = obj; t.what = what;
    yield_to_next(self_id);
}
int sched_self() { return self_id; }
static void fork_child_hook() { sched_after_fork_child(); }
// The parent does not continue before the child has run the library's fork handler: descriptors
// shared with the child would otherwise be closed at an uncontrolled moment.
static int *fork_flag; static bool in_lib_fork = false;
static void fork_parent_hook()
{
    if (!in_lib_fork) return;
    for (int i = 0; i < 100000 && !__atomic_load_n(fork_flag, __ATOMIC_ACQUIRE); i++) {
        siginfo_t si; memset(&si, 0, sizeof si);
        if (i > 20 && rsys(SYS_waitid, P_ALL, 0, (long)&si, WEXITED | WNOHANG | WNOWAIT, 0) == 0 && si.si_pid) break;
        struct timespec ts = { 0, 20000 };
        rsys(SYS_nanosleep, (long)&ts, 0);
    }
}
void sched_start(const uint8_t *p, int n, Trace *tr)
{
    pthread_atfork(nullptr, fork_parent_hook, fork_child_hook);
    fork_flag = (int *)rsys(SYS_mmap, 0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);      // before the library's: runs first in the child
    mtx = new std::map<const void *, int>();
    prefix = p; nprefix = n; trace = tr; tr->n = 0; tr->truncated = 0;
    memset(th, 0, sizeof th);
    nth = 1; self_id = 0;
    th[0].used = true; th[0].k = K_RUN; th[0].name = "main"; th[0].pt = pthread_self(); th[0].tid = rsys(SYS_gettid); th[0].cstate = PTHREAD_CANCEL_ENABLE; th[0].user = true;
    mode = SCHED;
}
extern "C" int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern "C" int __real_pthread_cancel(pthread_t);
extern "C" void __real_pthread_testcancel(void);
extern "C" int __real_pthread_join(pthread_t, void **);

static void thr_exit(void *p)
{
    Thr *t = (Thr *)p;
    int me = t - th;
    inlib = 0;
    t->k = K_DONE; t->what = "exited";
    int nx = pick(me);
    fwake(&th[nx].go);
}
static void *tramp(void *p)
{
    Thr *t = (Thr *)p;
    self_id = t - th;
    t->tid = rsys(SYS_gettid);
    is_bg = !t->user;
    fwait(&t->go);
    t->k = K_RUN;
    void *r = nullptr;
    pthread_cleanup_push(thr_exit, t);
    inlib = t->inlib0;
    t->was_cancelled = true;
    if (t->ufn) t->ufn(t->arg); else r = t->fn(t->arg);
    t->was_cancelled = false;
    inlib = 0;
    pthread_cleanup_pop(1);
    return r;
}
static int new_thr(const char *name, bool user)
{
    if (nth >= 16) { complain("too many threads"); _exit(96); }
    Thr &t = th[nth];
    memset(&t, 0, sizeof t);
    t.used = true; t.k = K_RUN; t.what = "start"; t.name = name; t.cstate = PTHREAD_CANCEL_ENABLE; t.user = user;
    return nth++;
}
int sched_spawn(void (*fn)(void *), void *arg, const char *name)
{
    int id = new_thr(name, true);
    th[id].ufn = fn; th[id].arg = arg;
    hb(HB_SPAWN, nullptr, id);
    __real_pthread_create(&th[id].pt, nullptr, tramp, &th[id]);
    return id;
}
void sched_join(int id) { th[self_id].join_target = id; block(K_JOIN, nullptr, "join"); hb(HB_JOIN, nullptr, id); __real_pthread_join(th[id].pt, nullptr); }
void sched_cancel(int id)
{
    sched_point("cancel");
    if (th[id].k == K_DONE) return;
    th[id].cancel_req = true;
    __real_pthread_cancel(th[id].pt);
}
bool sched_done(int id) { return th[id].k == K_DONE; }
bool sched_cancelled(int id) { return th[id].k == K_DONE && th[id].was_cancelled; }
void sched_quiesce() { if (!sched_active()) return; block(K_QUIESCE, nullptr, "quiesce"); }
void sched_after_fork_child()
{
    if (mode != SCHED || self_id < 0) return;
    sched_explore = false;
    for (int i = 0; i < nth; i++) if (i != self_id) { th[i].gone = true; hb(HB_JOIN, nullptr, i); }     // nothing in the child runs at the same time as what they did
    th[self_id].tid = rsys(SYS_gettid);
}
static int find_thr(pthread_t p)
{
    // newest first: pthread_t values are reused
    for (int i = nth - 1; i >= 0; i--) if (th[i].used && pthread_equal(th[i].pt, p)) return i;
    return -1;
}

// ---------------------------------------------------------------- harness API
int kq_open() { InLib l; blocked_forever = false; return kqueue(); }
int kq_event(int kq, const struct kevent *ch, int nch, struct kevent *ev, int nev, const struct timespec *ts)
{
    InLib l;
    blocked_forever = false;
    return kevent(kq, ch, nch, ev, nev, ts);
}
extern "C" int __real_close(int);
int kq_close(int fd)
{
    sched_point("close(kq)");
    ledger_user_close(fd);
    return __real_close(fd);
}
pid_t lib_fork()
{
    InLib l;
    __atomic_store_n(fork_flag, 0, __ATOMIC_RELEASE);
    in_lib_fork = true;
    pid_t p = fork();
    if (p == 0) __atomic_store_n(fork_flag, 1, __ATOMIC_RELEASE);
    in_lib_fork = false;
    return p;
}
void lib_exit(int code) { inlib++; exit(code); }

} // namespace rt
using namespace rt;

// ================================================================ wrapped functions
W(int, pthread_mutex_lock, (pthread_mutex_t * m))
{
    if (!inlib || !sched_active()) return __real_pthread_mutex_lock(m);
    block(K_LOCK, m, "lock");
    int save = inlib; inlib = 0; (*mtx)[m] = self_id; inlib = save;
    hb(HB_ACQ, m);
    return __real_pthread_mutex_lock(m);
}
W(int, pthread_mutex_trylock, (pthread_mutex_t * m))
{
    if (!inlib || !sched_active()) return __real_pthread_mutex_trylock(m);
    sched_point("trylock");
    int r = __real_pthread_mutex_trylock(m);
    int save = inlib; inlib = 0; if (r == 0) (*mtx)[m] = self_id; inlib = save;
    if (r == 0) hb(HB_ACQ, m);
    return r;
}
W(int, pthread_mutex_unlock, (pthread_mutex_t * m))
{
    if (!inlib || !sched_active()) return __real_pthread_mutex_unlock(m);
    int save = inlib; inlib = 0;
    auto it = mtx->find(m);
    if (it == mtx->end() || it->second < 0) { complain("mutex unlocked while not locked"); inlib = save; return EPERM; }
    else if (it->second != self_id) complain("mutex locked by %s unlocked by %s", th[it->second].name, th[self_id].name);
    (*mtx)[m] = -1;
    inlib = save;
    hb(HB_REL, m);
    int r = __real_pthread_mutex_unlock(m);
    sched_point("unlock");
    return r;
}
W(int, pthread_mutex_destroy, (pthread_mutex_t * m))
{
    if (inlib && sched_active()) {
        int save = inlib; inlib = 0;
        auto it = mtx->find(m);
        if (it != mtx->end()) { if (it->second >= 0) complain("locked mutex destroyed"); mtx->erase(it); }
        inlib = save;
    }
    return __real_pthread_mutex_destroy(m);
}
W(int, pthread_cond_wait, (pthread_cond_t * c, pthread_mutex_t *m))
{
    if (!inlib || !sched_active()) return __real_pthread_cond_wait(c, m);
    int save = inlib; inlib = 0; (*mtx)[m] = -1; inlib = save;
    hb(HB_REL, m);
    __real_pthread_mutex_unlock(m);
    th[self_id].signalled = false;
    block(K_COND, c, "cond_wait");
    th[self_id].signalled = false;
    block(K_LOCK, m, "cond_relock");
    save = inlib; inlib = 0; (*mtx)[m] = self_id; inlib = save;
    hb(HB_ACQ, m);
    return __real_pthread_mutex_lock(m);
}
W(int, pthread_cond_timedwait, (pthread_cond_t * c, pthread_mutex_t *m, const struct timespec *ts))
{
    if (!inlib || !sched_active()) return __real_pthread_cond_timedwait(c, m, ts);
    return __wrap_pthread_cond_wait(c, m);
}
W(int, pthread_cond_signal, (pthread_cond_t * c))
{
    if (!inlib || !sched_active()) return __real_pthread_cond_signal(c);
    sched_point("cond_signal");
    for (int i = 0; i < nth; i++) if (th[i].k == K_COND && th[i].obj == c && !th[i].signalled) { th[i].signalled = true; break; }
    return 0;
}
W(int, pthread_cond_broadcast, (pthread_cond_t * c))
{
    if (!inlib || !sched_active()) return __real_pthread_cond_broadcast(c);
    sched_point("cond_broadcast");
    for (int i = 0; i < nth; i++) if (th[i].k == K_COND && th[i].obj == c) th[i].signalled = true;
    return 0;
}
struct Once { pthread_once_t *o; int st; int owner; };
static Once onces[8]; static int nonces;
W(int, pthread_once, (pthread_once_t * o, void (*fn)(void)))
{
    if (!inlib || !sched_active()) return __real_pthread_once(o, fn);
    Once *c = nullptr;
    for (int i = 0; i < nonces; i++) if (onces[i].o == o) c = &onces[i];
    if (!c) { c = &onces[nonces++]; c->o = o; c->st = 0; }
    sched_point("pthread_once");
    if (c->st == 1) block(K_LOCK, c, "pthread_once");      // released by the owner below
    if (c->st == 2) { hb(HB_ACQ, c); return 0; }
    c->st = 1;
    int save = inlib; inlib = 0; (*mtx)[c] = self_id; inlib = save;
    fn();
    hb(HB_REL, c);
    c->st = 2;
    save = inlib; inlib = 0; (*mtx)[c] = -1; inlib = save;
    sched_point("pthread_once done");
    return 0;
}
struct SeqStart { void *(*fn)(void *); void *arg; };
static void *seq_tramp(void *p)
{
    SeqStart s = *(SeqStart *)p;
    delete (SeqStart *)p;
    is_bg = true; inlib = 1;
    return s.fn(s.arg);
}
W(int, pthread_create, (pthread_t * t, const pthread_attr_t *a, void *(*fn)(void *), void *arg))
{
    if (!inlib) return __real_pthread_create(t, a, fn, arg);
    FAULT(S_PTHREAD_CREATE, 0, EAGAIN);
    int save = inlib; inlib = 0;
    int r;
    if (sched_active()) {
        int id = new_thr("bg", false);
        th[id].fn = fn; th[id].arg = arg; th[id].inlib0 = 1;
        hb(HB_SPAWN, nullptr, id);
        r = __real_pthread_create(&th[id].pt, a, tramp, &th[id]);
        *t = th[id].pt;
        inlib = save;
        sched_point("pthread_create");
        return r;
    }
    SeqStart *s = new SeqStart{ fn, arg };
    r = __real_pthread_create(t, a, mode == PASS ? seq_tramp : seq_tramp, s);
    inlib = save;
    return r;
}
W(int, pthread_join, (pthread_t t, void **rv))
{
    if (!inlib || !sched_active()) return __real_pthread_join(t, rv);
    int i = find_thr(t);
    if (i < 0) { complain("pthread_join of an unknown thread"); return ESRCH; }
    if (th[i].gone) { complain("pthread_join of a thread lost in fork"); return ESRCH; }
    if (th[i].detached) { complain("pthread_join of a detached thread"); return EINVAL; }
    th[self_id].join_target = i;
    block(K_JOIN, nullptr, "pthread_join");
    hb(HB_JOIN, nullptr, i);
    if (th[i].detached) return EINVAL;
    return __real_pthread_join(t, rv);
}
W(int, pthread_detach, (pthread_t t))
{
    if (!inlib || !sched_active()) return __real_pthread_detach(t);
    sched_point("pthread_detach");
    int i = find_thr(t);
    if (i >= 0) {
        // real detach is postponed for ever: the thread descriptor stays valid so that a late
        // cancel/join by the library is observed here instead of being undefined behaviour
        for (int j = 0; j < nth; j++) if (th[j].k == K_JOIN && th[j].join_target == i) return EINVAL;
        th[i].detached = true;
        return 0;
    }
    return __real_pthread_detach(t);
}
W(int, pthread_cancel, (pthread_t t))
{
    if (!inlib || !sched_active()) return __real_pthread_cancel(t);
    sched_point("pthread_cancel");
    int i = find_thr(t);
    if (i < 0 || th[i].gone) { complain("pthread_cancel of a thread that does not exist"); return ESRCH; }
    if (th[i].k == K_DONE) { if (th[i].detached) complain("pthread_cancel of a detached thread that has exited"); return 0; }
    th[i].cancel_req = true;
    return __real_pthread_cancel(t);
}
W(int, pthread_setcancelstate, (int s, int *old))
{
    int o = 0;
    int r = __real_pthread_setcancelstate(s, &o);
    if (old) *old = o;
    if (sched_active() && r == 0) th[self_id].cstate = s;
    return r;
}
W(void, pthread_testcancel, (void))
{
    if (inlib && sched_active()) sched_point("testcancel");
    __real_pthread_testcancel();
}
static int sigwait_common(const sigset_t *set, siginfo_t *info)
{
    th[self_id].set = *set;
    block(K_SIGWAIT, nullptr, "sigwait");
    __real_pthread_testcancel();
    struct timespec z = { 0, 0 };
    siginfo_t tmp;
    long r = rsys(SYS_rt_sigtimedwait, (long)set, (long)(info ? info : &tmp), (long)&z, 8);
    if (r < 0) { errno = -r; return -1; }
    return r;
}
W(int, sigwaitinfo, (const sigset_t *set, siginfo_t *info))
{
    if (!inlib || !sched_active()) return __real_sigwaitinfo(set, info);
    return sigwait_common(set, info);
}
W(int, sigtimedwait, (const sigset_t *set, siginfo_t *info, const struct timespec *ts))
{
    if (!inlib || !sched_active()) return __real_sigtimedwait(set, info, ts);
    return sigwait_common(set, info);
}
W(int, sigwait, (const sigset_t *set, int *sig))
{
    if (!inlib || !sched_active()) return __real_sigwait(set, sig);
    int r = sigwait_common(set, nullptr);
    if (r < 0) return errno;
    *sig = r;
    return 0;
}

// ---- waiting --------------------------------------------------------------------------
// try_once: returns >0 ready, 0 not, <0 error (errno set).  tmo in ns, -1 = none
template <class F> static int wait_loop(F try_once, int64_t tmo, int fd, short pev, const char *what)
{
    int64_t deadline = tmo < 0 ? -1 : (tmo > INT64_MAX - vnow ? INT64_MAX : vnow + tmo);
    if (sched_active()) {
        Thr &t = th[self_id];
        t.fd = fd; t.pev = pev; t.timed = tmo >= 0;
        block(K_POLL, nullptr, what);
        __real_pthread_testcancel();
    }
    for (;;) {
        int r = try_once();
        if (r != 0) return r;
        if (tmo == 0) return 0;
        int64_t n = vt_used_max ? vt_next() : -1;
        if (!env_at.empty()) {
            int64_t e = env_at.front().t;
            if ((n < 0 || n > e) && (intr_at < 0 || intr_at > e) && (deadline < 0 || deadline > e)) {
                if (e > vnow) vclock_advance(e - vnow);
                auto f = env_at.front().f;
                env_at.erase(env_at.begin());
                int save = inlib; inlib = 0;
                f();
                inlib = save;
                continue;
            }
        }
        if (intr_at >= 0 && (n < 0 || n > intr_at) && (deadline < 0 || deadline > intr_at)) {
            if (intr_at > vnow) vclock_advance(intr_at - vnow);
            intr_at = -1;
            errno = EINTR;
            return -1;
        }
        if (n >= 0 && (deadline < 0 || n <= deadline)) { vclock_advance(n > vnow ? n - vnow : 0); continue; }
        if (deadline >= 0) { vclock_advance(deadline - vnow); return 0; }
        if (sched_active()) { block(K_POLL, nullptr, what); __real_pthread_testcancel(); continue; }
        blocked_forever = true;
        errno = EDEADLK;
        return -1;
    }
}
W(int, epoll_wait, (int ep, struct epoll_event *ev, int n, int tmo))
{
    if (!inlib || mode == PASS) return __real_epoll_wait(ep, ev, n, tmo);
    FAULT(S_EPOLL_WAIT, 0, -1);
    int r = wait_loop([&] { return __real_epoll_wait(ep, ev, n, 0); }, tmo < 0 ? -1 : (int64_t)tmo * 1000000, ep, POLLIN, "epoll_wait");
    if (r > 0 && buf_hook) buf_hook(ev, r * sizeof *ev, (void *)__wrap_epoll_wait);
    return r;
}
W(int, epoll_pwait, (int ep, struct epoll_event *ev, int n, int tmo, const sigset_t *ss))
{
    if (!inlib || mode == PASS) return __real_epoll_pwait(ep, ev, n, tmo, ss);
    return __wrap_epoll_wait(ep, ev, n, tmo);
}
static int64_t ts_ns(const struct timespec *ts) { if (ts->tv_sec > 9000000000LL) return INT64_MAX; return (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec; }
W(int, epoll_pwait2, (int ep, struct epoll_event *ev, int n, const struct timespec *ts, const sigset_t *ss))
{
    if (!inlib || mode == PASS) return __real_epoll_pwait2(ep, ev, n, ts, ss);
    FAULT(S_EPOLL_WAIT, 0, -1);
    if (ts && (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec > 999999999)) { errno = EINVAL; return -1; }
    int r = wait_loop([&] { return __real_epoll_wait(ep, ev, n, 0); }, ts ? ts_ns(ts) : -1, ep, POLLIN, "epoll_wait");
    if (r > 0 && buf_hook) buf_hook(ev, r * sizeof *ev, (void *)__wrap_epoll_wait);
    return r;
}
W(int, ppoll, (struct pollfd * f, nfds_t n, const struct timespec *ts, const sigset_t *ss))
{
    if (!inlib || mode == PASS) return __real_ppoll(f, n, ts, ss);
    FAULT(S_PPOLL, 0, -1);
    if (ts && (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec > 999999999)) { errno = EINVAL; return -1; }
    struct timespec z = { 0, 0 };
    return wait_loop([&] { return __real_ppoll(f, n, &z, nullptr); }, ts ? ts_ns(ts) : -1, n ? f[0].fd : -1, n ? f[0].events : 0, "ppoll");
}
W(int, poll, (struct pollfd * f, nfds_t n, int tmo))
{
    if (!inlib || mode == PASS) return __real_poll(f, n, tmo);
    FAULT(S_PPOLL, 0, -1);
    return wait_loop([&] { return __real_poll(f, n, 0); }, tmo < 0 ? -1 : (int64_t)tmo * 1000000, n ? f[0].fd : -1, n ? f[0].events : 0, "poll");
}

// ---- descriptors -------------------------------------------------------------------------
W(int, close, (int fd))
{
    if (!inlib || mode == PASS) return __real_close(fd);
    point("close");
    if (fd < 0) { errno = EBADF; return -1; }
    if (!fd_drop(fd)) complain("library closes descriptor %d which it does not own", fd);
    if (fd < MAXFD) vt[fd].used = false;
    __atomic_add_fetch(&closing, 1, __ATOMIC_RELAXED);
    int r = __real_close(fd);
    __atomic_sub_fetch(&closing, 1, __ATOMIC_RELAXED);
    return r;
}
W(int, epoll_create1, (int fl))
{
    if (!inlib || mode == PASS) return __real_epoll_create1(fl);
    point("epoll_create"); FAULT(S_EPOLL_CREATE, 0, -1);
    int r = lowfd(__real_epoll_create1(fl)); fd_open(r, "epoll"); return r;
}
W(int, epoll_create, (int n))
{
    if (!inlib || mode == PASS) return __real_epoll_create(n);
    point("epoll_create"); FAULT(S_EPOLL_CREATE, 0, -1);
    int r = lowfd(__real_epoll_create(n)); fd_open(r, "epoll"); return r;
}
W(int, epoll_ctl, (int ep, int op, int fd, struct epoll_event *ev))
{
    if (!inlib || mode == PASS) return __real_epoll_ctl(ep, op, fd, ev);
    point("epoll_ctl"); FAULT(S_EPOLL_CTL, op, -1);
    return __real_epoll_ctl(ep, op, fd, ev);
}
W(int, pipe2, (int *p, int fl))
{
    if (!inlib || mode == PASS) return __real_pipe2(p, fl);
    point("pipe2"); FAULT(S_PIPE, 0, -1);
    int r = __real_pipe2(p, fl);
    if (r == 0) { p[0] = lowfd(p[0]); p[1] = lowfd(p[1], 2); if (mode == SEQ) p[1] = rt::farfd(p[1]); fd_open(p[0], "pipe-r"); fd_open(p[1], "pipe-w"); }
    return r;
}
W(int, pipe, (int *p))
{
    if (!inlib || mode == PASS) return __real_pipe(p);
    point("pipe"); FAULT(S_PIPE, 0, -1);
    int r = __real_pipe(p);
    if (r == 0) { p[0] = lowfd(p[0]); p[1] = lowfd(p[1], 2); fd_open(p[0], "pipe-r"); fd_open(p[1], "pipe-w"); }
    return r;
}
W(int, socketpair, (int d, int t, int pr, int *p))
{
    if (!inlib || mode == PASS) return __real_socketpair(d, t, pr, p);
    point("socketpair"); FAULT(S_PIPE, 0, -1);
    int r = __real_socketpair(d, t, pr, p);
    if (r == 0) { fd_open(p[0], "sock"); fd_open(p[1], "sock"); }
    return r;
}
W(int, eventfd, (unsigned n, int fl))
{
    if (!inlib || mode == PASS) return __real_eventfd(n, fl);
    point("eventfd"); FAULT(S_EVENTFD, 0, -1);
    int r = lowfd(__real_eventfd(n, fl)); fd_open(r, "eventfd"); return r;
}
W(int, eventfd_write, (int fd, eventfd_t v))
{
    if (!inlib || mode == PASS) return __real_eventfd_write(fd, v);
    point("eventfd_write"); FAULT(S_WRITE, 0, -1);
    return __real_eventfd_write(fd, v);
}
W(int, eventfd_read, (int fd, eventfd_t *v))
{
    if (!inlib || mode == PASS) return __real_eventfd_read(fd, v);
    point("eventfd_read"); FAULT(S_READ, 0, -1);
    return __real_eventfd_read(fd, v);
}
W(int, timerfd_create, (int clk, int fl))
{
    if (!inlib || mode == PASS) return __real_timerfd_create(clk, fl);
    point("timerfd_create"); FAULT(S_TIMERFD_CREATE, 0, -1);
    int r = lowfd(__real_eventfd(0, fl & (EFD_CLOEXEC | EFD_NONBLOCK)));
    if (r >= 0 && r < MAXFD) { vt[r] = { true, false, false, clk, 0, 0 }; if (r + 1 > vt_used_max) vt_used_max = r + 1; }
    fd_open(r, "timerfd");
    return r;
}
W(int, timerfd_settime, (int fd, int fl, const struct itimerspec *nw, struct itimerspec *old))
{
    if (!inlib || mode == PASS || fd < 0 || fd >= MAXFD || !vt[fd].used) return __real_timerfd_settime(fd, fl, nw, old);
    point("timerfd_settime"); FAULT(S_TIMERFD_SETTIME, 0, -1);
    auto bad = [](const struct timespec &t) { return t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec > 999999999; };
    if (bad(nw->it_value) || bad(nw->it_interval)) { errno = EINVAL; return -1; }
    VTimer &t = vt[fd];
    if (old) {
        int64_t rem = t.armed ? t.next - vnow : 0;
        old->it_value = { rem / 1000000000, rem % 1000000000 };
        old->it_interval = { t.interval / 1000000000, t.interval % 1000000000 };
    }
    uint64_t junk;
    if (t.expired) rsys(SYS_read, fd, (long)&junk, 8);
    t.expired = false;
    t.armed = nw->it_value.tv_sec || nw->it_value.tv_nsec;
    int64_t v = ts_ns(&nw->it_value);
    bool rtc = t.clk == CLOCK_REALTIME || t.clk == CLOCK_REALTIME_ALARM;
    if (fl & TFD_TIMER_ABSTIME) t.next = rtc ? v - REAL_OFF : v;
    else t.next = v > INT64_MAX - vnow ? INT64_MAX : vnow + v;
    t.interval = ts_ns(&nw->it_interval);
    vt_fire(fd);
    return 0;
}
W(int, timerfd_gettime, (int fd, struct itimerspec *cur))
{
    if (!inlib || mode == PASS || fd < 0 || fd >= MAXFD || !vt[fd].used) return __real_timerfd_gettime(fd, cur);
    VTimer &t = vt[fd];
    int64_t rem = t.armed ? t.next - vnow : 0;
    cur->it_value = { rem / 1000000000, rem % 1000000000 };
    cur->it_interval = { t.interval / 1000000000, t.interval % 1000000000 };
    return 0;
}
W(int, clock_gettime, (clockid_t c, struct timespec *ts))
{
    if (!inlib || mode == PASS) return __real_clock_gettime(c, ts);
    int64_t v = vnow + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL_OFF : 0);
    ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
    return 0;
}
W(int, signalfd, (int fd, const sigset_t *m, int fl))
{
    if (!inlib || mode == PASS) return __real_signalfd(fd, m, fl);
    point("signalfd"); FAULT(S_SIGNALFD, 0, -1);
    int r = lowfd(__real_signalfd(fd, m, fl)); fd_open(r, "signalfd"); return r;
}
// the number of inotify instances of a user is limited: parallel explorations wait for one another
extern "C" int __real_inotify_init1(int);
static int inotify_retry(int fl)
{
    int r;
    for (int i = 0; i < 5000; i++) {
        r = __real_inotify_init1(fl);
        if (r >= 0 || errno != EMFILE) break;
        struct timespec ts = { 0, 1000000 };
        nanosleep(&ts, nullptr);
    }
    return r;
}
W(int, inotify_init1, (int fl))
{
    if (!inlib || mode == PASS) return __real_inotify_init1(fl);
    point("inotify_init"); FAULT(S_INOTIFY_INIT, 0, -1);
    int r = lowfd(inotify_retry(fl)); fd_open(r, "inotify"); return r;
}
W(int, inotify_init, (void))
{
    if (!inlib || mode == PASS) return __real_inotify_init();
    point("inotify_init"); FAULT(S_INOTIFY_INIT, 0, -1);
    int r = lowfd(inotify_retry(0)); fd_open(r, "inotify"); return r;
}
W(int, inotify_add_watch, (int fd, const char *p, uint32_t m))
{
    if (!inlib || mode == PASS) return __real_inotify_add_watch(fd, p, m);
    point("inotify_add_watch"); FAULT(S_INOTIFY_ADD, 0, -1);
    return __real_inotify_add_watch(fd, p, m);
}
W(int, dup, (int fd))
{
    int r = __real_dup(fd);
    if (inlib && mode != PASS) fd_open(r, "dup");
    return r;
}
static int fcntl_common(int fd, int cmd, long a, int (*real)(int, int, ...))
{
    if (inlib && mode != PASS && cmd != F_GETFD && cmd != F_GETFL) {
        point("fcntl");
        FAULT(S_FCNTL, cmd, -1);
    }
    int r = real(fd, cmd, a);
    if (inlib && mode != PASS && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) fd_open(r, "dup");
    return r;
}
extern "C" int __real_fcntl(int, int, ...);
extern "C" int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return fcntl_common(fd, cmd, a, __real_fcntl);
}
extern "C" int __real_fcntl64(int, int, ...);
extern "C" int __wrap_fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return fcntl_common(fd, cmd, a, __real_fcntl64);
}
extern "C" int __real_ioctl(int, unsigned long, ...);
extern "C" int __wrap_ioctl(int fd, unsigned long rq, ...)
{
    va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap);
    if (inlib && mode != PASS) FAULT(S_IOCTL, 0, -1);
    return __real_ioctl(fd, rq, a);
}
W(ssize_t, read, (int fd, void *b, size_t n))
{
    if (!inlib || mode == PASS) return __real_read(fd, b, n);
    long fl = rsys(SYS_fcntl, fd, F_GETFL);
    if (fl < 0) { errno = EBADF; return -1; }
    if (!ledger_owns(fd)) complain("library reads from descriptor %d which it does not own", fd);
    bool nb = fl >= 0 && (fl & O_NONBLOCK);
    if (sched_active() && !nb && !fd_ready(fd, POLLIN)) {
        Thr &t = th[self_id]; t.fd = fd; t.pev = POLLIN; t.timed = false; block(K_POLL, nullptr, "blocking read");
        __real_pthread_testcancel();
    } else point("read");
    FAULT(S_READ, 0, -1);
    if (!nb && !fd_ready(fd, POLLIN)) {
        complain("library would block for ever reading its own descriptor %d", fd);
        errno = EAGAIN;
        return -1;
    }
    if (fd >= 0 && fd < MAXFD && vt[fd].used) { long r = vt_read(fd, b, n); if (r < 0) { errno = -r; return -1; } return r; }
    return __real_read(fd, b, n);
}
W(ssize_t, write, (int fd, const void *b, size_t n))
{
    if (!inlib || mode == PASS) return __real_write(fd, b, n);
    if (!ledger_owns(fd) && fd > 2) complain("library writes to descriptor %d which it does not own", fd);
    point("write"); FAULT(S_WRITE, 0, -1);
    return __real_write(fd, b, n);
}
W(int, fstat, (int fd, struct stat *sb))
{
    if (inlib && mode != PASS) FAULT(S_FSTAT, 0, -1);
    return __real_fstat(fd, sb);
}
W(off_t, lseek, (int fd, off_t o, int w))
{
    if (inlib && mode != PASS) {
        if (!(o == 0 && w == SEEK_CUR)) complain("library moves the offset of descriptor %d", fd);
        FAULT(S_LSEEK, 0, -1);
    }
    return __real_lseek(fd, o, w);
}
W(int, getsockopt, (int fd, int l, int o, void *v, socklen_t *n))
{
    if (inlib && mode != PASS) FAULT(S_GETSOCKOPT, o, -1);
    int r = __real_getsockopt(fd, l, o, v, n);
#ifdef SO_GET_FILTER
    struct stat sb;
    if (r == 0 && l == SOL_SOCKET && o == SO_GET_FILTER && filtered_ino && rsys(SYS_fstat, fd, (long)&sb, 0, 0) == 0 && sb.st_ino == filtered_ino) *n = 1;
#endif
    return r;
}
W(int, waitid, (idtype_t t, id_t id, siginfo_t *si, int o))
{
    if (!inlib || mode == PASS) return __real_waitid(t, id, si, o);
    point("waitid"); FAULT(S_WAITID, 0, -1);
    if ((o & WEXITED) && !(o & WNOWAIT)) complain("library reaps a child process");
    int r = __real_waitid(t, id, si, o);
    if (r == 0 && si && fake_pid && si->si_pid == fake_pid) { si->si_code = fake_code; si->si_status = fake_status; }
    return r;
}
W(pid_t, waitpid, (pid_t p, int *st, int o))
{
    if (inlib && mode != PASS) complain("library calls waitpid");
    return __real_waitpid(p, st, o);
}
W(ssize_t, readlink, (const char *p, char *b, size_t n))
{
    if (inlib && mode != PASS) FAULT(S_READLINK, 0, -1);
    return __real_readlink(p, b, n);
}
W(int, sigprocmask, (int h, const sigset_t *s, sigset_t *o))
{
    if (inlib && mode != PASS) FAULT(S_SIGMASK, 0, -1);
    return __real_sigprocmask(h, s, o);
}
W(int, getrlimit, (int r, struct rlimit *l))
{
    if (inlib && mode != PASS) FAULT(S_GETRLIMIT, 0, -1);
    int x = __real_getrlimit((__rlimit_resource)r, l);
    if (inlib && rlim_override >= 0) l->rlim_max = rlim_override;
    return x;
}
W(void *, mmap, (void *a, size_t n, int p, int f, int fd, off_t o))
{
    if (inlib && mode != PASS) FAULT(S_MMAP, 0, MAP_FAILED);
    return __real_mmap(a, n, p, f, fd, o);
}
extern "C" long __real_syscall(long, ...);
extern "C" long __wrap_syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (!inlib || mode == PASS || n == SYS_gettid) return __real_syscall(n, a, b, c, d, e, f);
    point("syscall"); FAULT(S_SYSCALL, n, -1);
    long r = __real_syscall(n, a, b, c, d, e, f);
#ifdef SYS_pidfd_open
    if (n == SYS_pidfd_open && r >= 0) { r = lowfd(r); fd_open(r, "pidfd"); }
#endif
    if (n == SYS_close) fd_drop(a);
    return r;
}
W(int, pidfd_open, (pid_t p, unsigned fl))
{
    if (!inlib || mode == PASS) return __real_pidfd_open(p, fl);
    point("pidfd_open"); FAULT(S_SYSCALL, SYS_pidfd_open, -1);
    int r = lowfd(__real_pidfd_open(p, fl)); fd_open(r, "pidfd"); return r;
}

// ---- memory ------------------------------------------------------------------------------
static void pt_add(void *p, size_t n)
{
    G g;
    unsigned h = ((uintptr_t)p >> 4) * 2654435761u >> 16;
    for (unsigned i = 0; i < (1 << 16); i++) { unsigned k = (h + i) & 0xffff; if (!ptab[k] || ptab[k] == (void *)1) { ptab[k] = p; psz[k] = n; own_blocks++; return; } }
}
static bool pt_del(void *p, size_t *n)
{
    G g;
    unsigned h = ((uintptr_t)p >> 4) * 2654435761u >> 16;
    for (unsigned i = 0; i < (1 << 16); i++) { unsigned k = (h + i) & 0xffff; if (!ptab[k]) return false; if (ptab[k] == p) { ptab[k] = (void *)1; *n = psz[k]; own_blocks--; return true; } }
    return false;
}
static void *galloc(size_t n)
{
    size_t pages = (n + 4095) / 4096 + 1;
    char *b = (char *)rsys(SYS_mmap, 0, pages * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if ((long)b < 0 && (long)b > -4096) return nullptr;
    rsys(SYS_mprotect, (long)(b + (pages - 1) * 4096), 4096, PROT_NONE);
    return b + (pages - 1) * 4096 - ((n + 15) & ~15UL);
}
// blocks handed back: their addresses are never used again while guard_alloc is on
static void *freed[1 << 16];
static void fr_add(void *p) { G g; unsigned h = ((uintptr_t)p >> 4) * 2654435761u >> 16; for (unsigned i = 0; i < 64; i++) { void *&k = freed[(h + i) & 0xffff]; if (!k || k == p) { k = p; return; } } }
static bool fr_has(void *p) { G g; unsigned h = ((uintptr_t)p >> 4) * 2654435761u >> 16; for (unsigned i = 0; i < 64; i++) { void *k = freed[(h + i) & 0xffff]; if (!k) return false; if (k == p) return true; } return false; }
static void gfree(void *p, size_t n)
{
    fr_add(p);
    uintptr_t a = (uintptr_t)p & ~4095UL;
    uintptr_t e = ((uintptr_t)p + ((n + 15) & ~15UL) + 4095) & ~4095UL;
    rsys(SYS_mprotect, a, e - a, PROT_NONE);
}
W(void *, calloc, (size_t a, size_t b))
{
    if (!inlib || mode == PASS) return __real_calloc(a, b);
    FAULT(S_MALLOC, 0, nullptr);
    void *p = guard_alloc ? galloc(a * b) : __real_calloc(a, b);
    if (p) pt_add(p, a * b);
    return p;
}
W(void *, malloc, (size_t a))
{
    if (!inlib || mode == PASS) return __real_malloc(a);
    FAULT(S_MALLOC, 0, nullptr);
    void *p = guard_alloc ? galloc(a) : __real_malloc(a);
    if (p) { if (guard_alloc) memset(p, 0xa5, a); pt_add(p, a); }
    return p;
}
W(void *, realloc, (void *p, size_t n))
{
    if (!inlib || mode == PASS) return __real_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    FAULT(S_MALLOC, 0, nullptr);
    size_t o = 0;
    if (!pt_del(p, &o)) { if (guard_alloc && fr_has(p)) { complain("library reallocates a block it has freed"); return nullptr; } return __real_realloc(p, n); }
    void *q;
    if (guard_alloc) { q = galloc(n); memcpy(q, p, o < n ? o : n); gfree(p, o); } else q = __real_realloc(p, n);
    pt_add(q, n);
    return q;
}
W(char *, strdup, (const char *s))
{
    if (!inlib || mode == PASS) return __real_strdup(s);
    char *p = (char *)__wrap_malloc(strlen(s) + 1);
    if (p) strcpy(p, s);
    return p;
}
W(void, free, (void *p))
{
    size_t n = 0;
    if (!p) return;
    if (!inlib || mode == PASS) { __real_free(p); return; }
    bool mine = pt_del(p, &n);
    if (guard_alloc) {
        // a block that was never handed out here comes from inside the C library (asprintf, getline, ...)
        if (mine) gfree(p, n);
        else if (fr_has(p)) complain("library frees a block twice");
        else __real_free(p);
        return;
    }
    __real_free(p);
}
extern "C" void __real___assert_fail(const char *e, const char *f, unsigned l, const char *fn);
namespace rt { void (*on_assert)(const char *) = nullptr; }
extern "C" void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    if (rt::on_assert) {
        char b[512];
        const char *s = strrchr(f, '/');
        snprintf(b, sizeof b, "assertion failed in the library: %s (%s:%u %s)", e, s ? s + 1 : f, l, fn);
        inlib = 0;
        rt::on_assert(b);
    }
    __real___assert_fail(e, f, l, fn);
}
