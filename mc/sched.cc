#include <sys/syscall.h>
// Systematic exploration of thread schedules (bounded preemptions) and of failing calls.
// Every execution runs in a fresh process so that the library starts uninitialised.
#include "sched.h"
#include "fine.h"
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <algorithm>
#include <set>

namespace rt { extern void (*on_assert)(const char *); }
Res *R;
const struct timespec ZT = { 0, 0 };
std::vector<Family> &families() { static std::vector<Family> v; return v; }

std::string sf(const char *f, ...) { char b[1200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void record_bad(const char *m)
{
    int z = 0;
    if (R->bad.compare_exchange_strong(z, 1)) snprintf(R->msg, sizeof R->msg, "%s", m);
}
void sfail(const char *f, ...)
{
    char b[1300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    record_bad(b);
    _exit(41);
}
void need(bool c, const char *f, ...)
{
    if (c) return;
    char b[1300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    record_bad(b);
    _exit(41);
}
void note(uint64_t v) { uint64_t h = R->outcome ? R->outcome : 1469598103934665603ull; for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } R->outcome = h; }
void check_rt(const char *what) { if (!rt::faults_seen.empty()) sfail("%s: %s", what, rt::faults_seen[0].c_str()); }
int spawn(std::function<void()> fn, const char *name)
{
    auto *f = new std::function<void()>(fn);
    return rt::sched_spawn([](void *p) { (*(std::function<void()> *)p)(); }, f, name);
}
int chg(int kq, uintptr_t id, short filt, unsigned flags, unsigned ff, long data, void *ud)
{
    struct kevent k;
    EV_SET(&k, id, filt, flags, ff, data, ud);
    errno = 0;
    int r = rt::kq_event(kq, &k, 1, nullptr, 0, &ZT);
    if (r == 0) return 0;
    if (r != -1) sfail("change without an event list returned %d", r);
    if (!errno) sfail("change failed with errno 0");
    return errno;
}
int get(int kq, struct kevent *ev, int n, const struct timespec *ts)
{
    errno = 0;
    int r = rt::kq_event(kq, nullptr, 0, ev, n, ts);
    if (r < 0) return errno ? -errno : -9999;
    if (r > n) sfail("kevent returned %d for an event list of %d", r, n);
    return r;
}

// ------------------------------------------------------------------ one execution
enum { MAXP = 900 };
struct Item { int scn; uint16_t n; uint8_t pre; uint8_t ninj; rt::Inject inj[2]; uint8_t p[MAXP]; };
static std::vector<Scn> scns;
static bool fault_mode, zero_mode;
static int limit_s = 20;

[[noreturn]] static void child(const Item &it)
{
    alarm(limit_s);
    struct rlimit rl = { 128, 128 };
    setrlimit(RLIMIT_NOFILE, &rl);
    rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    rt::guard_alloc = true;
    rt::vclock_reset();
    rt::on_assert = [](const char *m) { record_bad(m); _exit(41); };
    rt::sched_on_deadlock = [](const std::string &w) {
        if (w[0] == '!') { record_bad(w.c_str()); _exit(98); }
        record_bad(("deadlock: " + w).c_str());
        _exit(41);
    };
    rt::spurious_budget = scns[it.scn].spurious;
    rt::sched_start(it.p, it.n, &R->tr);
    if (fault_mode) { rt::sched_explore = false; rt::injects.assign(it.inj, it.inj + it.ninj); }
    scns[it.scn].body();
    check_rt("after the run");
    R->injected = rt::injected;
    R->finished = 1;
    _exit(0);
}
// returns 0 ok, 1 violation, 2 infrastructure trouble
static int run_one(const Item &it)
{
    R->bad = 0; R->finished = 0; R->msg[0] = 0; R->outcome = 0; R->tr.n = 0; R->injected = 0; R->ncalls = 0;
    pid_t p = fork();
    if (p == 0) child(it);
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && R->finished && !R->bad) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98) return 2;
    if (R->bad) return 1;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) snprintf(R->msg, sizeof R->msg, "hang: the execution did not finish");
    else if (WIFSIGNALED(st)) snprintf(R->msg, sizeof R->msg, "crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    else snprintf(R->msg, sizeof R->msg, "unexpected exit status %d", WEXITSTATUS(st));
    return 1;
}
// ------------------------------------------------------------------ exploration
enum { QMAX = 1 << 19, MAXV = 64, MAXW = 32, HN = 1 << 16 };
struct Viol { Item it; int nch; uint8_t ch[MAXP]; char msg[1400]; };
struct Shared {
    std::atomic<int> spin; std::atomic<long> qn; std::atomic<int> active; std::atomic<int> stop;
    std::atomic<long> execs, points, infra, nviol, maxpts, dropped, injected, nout, nodes, byp[6];
    std::atomic<uint64_t> out[HN];
    Viol v[MAXV];
};
static Shared *S;
static Item *Q;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void lock() { int z = 0; while (!S->spin.compare_exchange_weak(z, 1)) { z = 0; sched_yield(); } }
static void unlock() { S->spin = 0; }
static void push(const Item *v, size_t n)
{
    lock();
    for (size_t i = 0; i < n; i++) if (S->qn < QMAX) Q[S->qn++] = v[i]; else { S->dropped++; S->stop = 3; }
    unlock();
}
static void seen_outcome(uint64_t o)
{
    if (!o) return;
    for (uint64_t i = o % HN, k = 0; k < HN; i = (i + 1) % HN, k++) {
        uint64_t c = S->out[i];
        if (c == o) return;
        if (!c) { uint64_t z = 0; if (S->out[i].compare_exchange_strong(z, o)) { S->nout++; return; } if (z == o) return; }
    }
}
static const int *errs_for(int site, int arg, int ninj)
{
    static const int fdl[] = { EMFILE, ENOMEM, 0 }, mem[] = { ENOMEM, 0 }, wat[] = { ENOSPC, ENOMEM, 0 }, thr[] = { EAGAIN, 0 }, intr[] = { EINTR, 0 }, none[] = { 0 };
    static const int zero[] = { rt::FD_ZERO, 0 }, zero2[] = { rt::FD_ZERO, rt::FD_ZERO + 1, 0 };
    if (zero_mode && !ninj) switch (site) {
    case rt::S_EPOLL_CREATE: case rt::S_EVENTFD: case rt::S_TIMERFD_CREATE: case rt::S_SIGNALFD: case rt::S_INOTIFY_INIT: return zero;
    case rt::S_SYSCALL: return arg == SYS_pidfd_open ? zero : none;
    case rt::S_PIPE: return zero2;
    default: return none;
    }
    switch (site) {
    case rt::S_EPOLL_CREATE: case rt::S_PIPE: case rt::S_EVENTFD: case rt::S_TIMERFD_CREATE: case rt::S_SIGNALFD: case rt::S_INOTIFY_INIT: case rt::S_SYSCALL: return fdl;
    case rt::S_INOTIFY_ADD: return wat;
    case rt::S_EPOLL_CTL: return arg == 1 /* ADD */ ? wat : none;
    case rt::S_MALLOC: case rt::S_FCNTL: case rt::S_READLINK: case rt::S_MMAP: return mem;
    case rt::S_PTHREAD_CREATE: return thr;
    case rt::S_EPOLL_WAIT: case rt::S_PPOLL: return intr;
    }
    return none;
}
static int pb; static double t_end;
static void worker()
{
    std::vector<Item> out;
    static Item it;
    for (;;) {
        if (S->stop) break;
        if (now() > t_end) { S->stop = 2; break; }
        lock();
        bool got = S->qn > 0;
        if (got) { it = Q[--S->qn]; S->active++; }
        unlock();
        if (!got) { if (S->active == 0 && S->qn == 0) break; usleep(200); continue; }
        int r = run_one(it);
        S->execs++;
        S->points += fault_mode ? R->ncalls : R->tr.n;
        S->nodes += fault_mode ? 1 : std::max(1, R->tr.n - it.n);
        long m = S->maxpts; while (R->tr.n > m && !S->maxpts.compare_exchange_weak(m, R->tr.n)) {}
        S->byp[std::min<int>(fault_mode ? it.ninj : it.pre, 5)]++;
        if (r == 2) S->infra++;
        if (r == 1) {
            long i = S->nviol++;
            if (i < MAXV) {
                Viol &v = S->v[i];
                v.it = it; v.nch = std::min<int>(R->tr.n, MAXP);
                for (int k = 0; k < v.nch; k++) v.ch[k] = R->tr.c[k].chosen;
                snprintf(v.msg, sizeof v.msg, "%s", R->msg);
            }
            if (i + 1 >= (fault_mode ? 48 : 4)) S->stop = 1;
        }
        if (r == 0) {
            seen_outcome(R->outcome);
            out.clear();
            if (fault_mode) {
                if (R->injected) S->injected++;
                if (it.ninj < pb) {
                    long from = it.ninj ? it.inj[it.ninj - 1].at + 1 : 0;
                    for (long k = from; k < R->ncalls; k++) for (const int *e = errs_for(R->calls[k].site, R->calls[k].arg, it.ninj); *e; e++) {
                        Item n; n.scn = it.scn; n.n = 0; n.pre = 0; n.ninj = it.ninj + 1;
                        n.inj[0] = it.inj[0]; n.inj[n.ninj - 1] = { k, *e };
                        out.push_back(n);
                    }
                }
            } else {
                int cost = 0;
                rt::Trace &t = R->tr;
                for (int i = 0; i < t.n; i++) {
                    rt::Choice &c = t.c[i];
                    if (i >= it.n) for (int a = 0; a < c.n; a++) if (c.en[a] != c.chosen) {
                        int k = cost + (c.cur_enabled && c.en[a] != c.cur);
                        if (k > pb) continue;
                        if (i >= MAXP) { S->dropped++; continue; }
                        Item n; n.scn = it.scn; n.n = i + 1; n.pre = k; n.ninj = 0;
                        for (int j = 0; j < i; j++) n.p[j] = t.c[j].chosen;
                        n.p[i] = c.en[a];
                        out.push_back(n);
                    }
                    cost += c.cur_enabled && c.chosen != c.cur;
                }
            }
            if (!out.empty()) push(out.data(), out.size());
        }
        S->active--;
    }
}
static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
    return o + "\"";
}
static bool load_family(const char *f, int level)
{
    for (auto &x : families()) if (x.name == f) { fault_mode = x.fault; zero_mode = x.name == "fd0"; x.make(scns, level); return true; }
    fprintf(stderr, "no such family %s\n", f);
    return false;
}
static fine::Set *new_set() { return (fine::Set *)mmap(0, sizeof(fine::Set), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static Res *new_res() { return (Res *)mmap(0, sizeof(Res), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

int main(int argc, char **argv)
{
    signal(SIGPIPE, SIG_IGN);
    try { throw 1; } catch (int) {}         // the unwinder allocates its tables on first use
    if (const char *d = getenv("KQMC_SCRATCH")) if (chdir(d)) return 2;
    if (argc >= 6 && !strcmp(argv[1], "sched")) {
        // kqsc sched FAMILY LEVEL BOUND BUDGET_S JOBS
        if (!load_family(argv[2], atoi(argv[3]))) return 2;
        pb = atoi(argv[4]);
        double t0 = now();
        t_end = t0 + atof(argv[5]);
        int jobs = argc > 6 ? atoi(argv[6]) : 8;
        S = (Shared *)mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        Q = (Item *)mmap(0, sizeof(Item) * QMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        int rounds = 0;
        if (fine::linked) { fine::cur = new_set(); fine::next = new_set(); }
        for (;;) {
            rounds++;
            S->qn = 0; S->active = 0;
            for (int i = (int)scns.size() - 1; i >= 0; i--) { Item it; memset(&it, 0, sizeof it); it.scn = i; push(&it, 1); }
            std::vector<pid_t> pids;
            for (int i = 0; i < jobs; i++) {
                pid_t p = fork();
                if (p == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    int fd = open("/dev/null", O_WRONLY);
                    dup2(fd, 2); dup2(fd, 1); close(fd);
                    R = new_res();
                    worker();
                    _exit(0);
                }
                pids.push_back(p);
            }
            for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) S->stop = 4; }
            if (!fine::linked || fault_mode || S->stop || S->nviol || S->infra || fine::next->n == fine::cur->n) break;
            *fine::cur = *fine::next;        // more accesses conflict than were known: once more with switch points there
        }
        if (fine::linked && getenv("KQSC_PCS")) for (uint64_t pc : fine::cur->pc) if (pc) fprintf(stderr, "%#lx\n", (unsigned long)pc);
        bool ex = S->stop == 0 && S->nviol == 0 && S->dropped == 0 && S->infra == 0;
        if (getenv("KQMC_SITES") && fine::linked) for (unsigned i = 0; i < fine::N; i++) if (fine::cur->pc[i]) fprintf(stderr, "site 0x%llx\n", (unsigned long long)fine::cur->pc[i]);
        printf("{\"family\":%s,\"level\":%s,\"bound\":%d,\"scenarios\":%zu,\"executions\":%ld,\"points\":%ld,\"nodes\":%ld,\"maxpoints\":%ld,\"outcomes\":%ld,\"injected\":%ld,\"infra\":%ld,\"exhaustive\":%s,\"fault\":%s,\"rounds\":%d,\"races\":%d,\"wall\":%.1f,\"bybound\":[%ld,%ld,%ld,%ld],\"sample\":%s,\"violations\":[",
               jstr(argv[2]).c_str(), argv[3], pb, scns.size(), S->execs.load(), S->points.load(), S->nodes.load(), S->maxpts.load(), S->nout.load(), S->injected.load(), S->infra.load(), ex ? "true" : "false", fault_mode ? "true" : "false", rounds, fine::linked ? fine::cur->n : 0, now() - t0,
               S->byp[0].load(), S->byp[1].load(), S->byp[2].load(), S->byp[3].load(), jstr(scns.empty() ? "" : scns[scns.size() / 2].name).c_str());
        for (long i = 0; i < std::min<long>(S->nviol, MAXV); i++) {
            Viol &v = S->v[i];
            std::string c;
            if (fault_mode) for (int k = 0; k < v.it.ninj; k++) c += sf("%s%ld:%d", k ? "," : "", v.it.inj[k].at, v.it.inj[k].err);
            else for (int k = 0; k < v.nch; k++) c += char(48 + v.ch[k]);
            if (fine::linked) { c += "@"; for (uint64_t pc : fine::cur->pc) if (pc) c += sf("%lx,", (unsigned long)pc); }
            printf("%s{\"scn\":%s,\"choices\":%s,\"msg\":%s}", i ? "," : "", jstr(scns[v.it.scn].name).c_str(), jstr(c).c_str(), jstr(v.msg).c_str());
        }
        printf("]}\n");
        return 0;
    }
    if (argc >= 5 && !strcmp(argv[1], "replay")) {
        // kqsc replay FAMILY LEVEL SCENARIO [CHOICES]    exit 0 ok, 1 violated, 3 does not apply
        if (!load_family(argv[2], atoi(argv[3]))) return 2;
        static Item it; memset(&it, 0, sizeof it); it.scn = -1;
        for (size_t i = 0; i < scns.size(); i++) if (scns[i].name == argv[4]) it.scn = i;
        if (it.scn < 0) { printf("no such scenario\n"); return 2; }
        const char *c = argc > 5 ? argv[5] : "";
        if (fault_mode) { while (*c && it.ninj < 2) { char *e; it.inj[it.ninj].at = strtol(c, &e, 10); it.inj[it.ninj].err = strtol(e + 1, &e, 10); it.ninj++; c = *e ? e + 1 : e; } }
        else for (; *c && *c != '@' && it.n < MAXP; c++) it.p[it.n++] = *c - '0';
        if (fine::linked) {
            fine::cur = new_set();
            if (*c == '@') for (c++; *c; ) { char *e; fine::add(fine::cur, strtoul(c, &e, 16)); c = *e ? e + 1 : e; }
        }
        R = new_res();
        limit_s = 60;
        int r = run_one(it);
        if (fault_mode && getenv("KQSC_CALLS")) for (int i = 0; i < R->ncalls; i++) printf("%d %s(%d)\n", i, rt::site_name(R->calls[i].site), R->calls[i].arg);
        if (r == 0) { printf("ok (%d choice points)\n", R->tr.n); return 0; }
        printf("%s%s\n", r == 1 ? "VIOLATED " : "not replayable: ", R->msg);
        return r == 1 ? 1 : 3;
    }
    if (argc >= 3 && !strcmp(argv[1], "list")) { if (!load_family(argv[2], argc > 3 ? atoi(argv[3]) : 0)) return 2; for (auto &s : scns) printf("%s\n", s.name.c_str()); return 0; }
    if (argc >= 2 && !strcmp(argv[1], "families")) { for (auto &f : families()) printf("%s\n", f.name.c_str()); return 0; }
    return 2;
}
