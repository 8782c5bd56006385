// Command line front end and multi-process exploration of worlds.
#include "seq.h"
#include <stdarg.h>
#include <algorithm>
#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <atomic>

int sched_main(int argc, char **argv);
namespace rt { extern void (*on_assert)(const char *); }

static std::string scratch;
std::string scratch_dir() { return scratch; }

// any world with the library's debugging output switched on (and swallowed): nothing else may change
static void dbg_swallow(const char *f, ...)
{
    static thread_local char b[8192];
    va_list ap; va_start(ap, f);
    int save = rt::inlib; rt::inlib = 0;
    vsnprintf(b, sizeof b, f, ap);
    rt::inlib = save;
    va_end(ap);
}
static void dbg_set(int kq, uint32_t what, intptr_t v)
{
    struct kevent k[2];
    EV_SET(&k[0], 77, EVFILT_LIBKQUEUE, EV_ADD, what, v, nullptr);
    EV_SET(&k[1], 77, EVFILT_LIBKQUEUE, EV_DELETE, 0, 0, nullptr);
    if (rt::kq_event(kq, k, 2, nullptr, 0, nullptr) != 0) fail("setting a debug option failed, errno %d", errno);
}
static World *dbg_world(World *w)
{
    auto b = w->on_begin, e = w->on_end;
    w->on_begin = [=] { dbg_set(w->kqs[0], NOTE_DEBUG_FUNC, (intptr_t)dbg_swallow); dbg_set(w->kqs[0], NOTE_DEBUG, 1); if (b) b(); };
    w->on_end = [=] { if (e) e(); };
    return w;
}
// the library told that it is used by one thread only (the option stays set from one history to the next)
static World *off_world(World *w)
{
    auto b = w->on_begin;
    w->on_begin = [=] { dbg_set(w->kqs[0], NOTE_THREAD_SAFE, 0); if (b) b(); };
    return w;
}
World *make_world(const std::string &name)
{
    if (name.compare(0, 4, "off_") == 0) return off_world(make_world(name.substr(4)));
    if (name.compare(0, 2, "z_") == 0) { World *w = make_world(name.substr(2)); w->free0 = true; return w; }
    if (name.compare(0, 2, "h_") == 0) { World *w = make_world(name.substr(2)); w->high = true; w->nofile = 2048; return w; }
    // f256_, f1024_, f2048_: two kqueues whose numbers differ by that much
    if (name[0] == 'f' && isdigit(name[1])) { size_t u = name.find('_'); World *w = make_world(name.substr(u + 1)); w->kq_far = atoi(name.c_str() + 1); w->nofile = 4096; return w; }
    if (name.compare(0, 4, "dbg_") == 0) return dbg_world(make_world(name.substr(4)));
    for (auto &d : world_defs()) if (d.name == name) { World *w = d.make(); w->name = name; return w; }
    fprintf(stderr, "no such world: %s\n", name.c_str());
    exit(2);
}

enum { MAXW = 64, MAXV = 16, MAXPATH = 120 };
struct WShared {
    std::atomic<long> beat;
    int path[MAXPATH]; int npath;      // sequence being executed
    long seqs, steps;
    int maxlen;
};
struct Viol { int path[MAXPATH]; int n; char msg[1200]; };
struct Node { uint32_t parent; uint8_t op; uint8_t depth; };
struct Shared {
    std::atomic<long> next;
    std::atomic<long> nviol;
    std::atomic<int> stop;
    std::atomic<uint32_t> nnodes, done;
    std::atomic<long> transitions;
    std::atomic<int> spin;
    WShared w[MAXW];
    Viol v[MAXV];
};
static Shared *sh;
static Node *nodes; static std::atomic<uint64_t> *table;
static uint32_t max_nodes = 4u << 20; static uint64_t table_size = 16u << 20;
static int wid;
static World *W;
static double t_end;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static void report(const char *msg)
{
    long i = sh->nviol++;
    if (i < MAXV) {
        Viol &v = sh->v[i];
        v.n = sh->w[wid].npath; memcpy(v.path, sh->w[wid].path, sizeof v.path);
        snprintf(v.msg, sizeof v.msg, "%s", msg);
    }
    if (i + 1 >= 4) sh->stop = 1;
}
static void assert_hook(const char *m) { report(m); _exit(42); }

static int anchor = -1;
static void worker_init()
{
    mkdir(scratch.c_str(), 0700);
    scratch += fmt("/w%d", wid);
    mkdir(scratch.c_str(), 0700);
    struct rlimit rl = { (rlim_t)W->nofile, (rlim_t)W->nofile };
    setrlimit(RLIMIT_NOFILE, &rl);
    if (W->high) while (dup(1) >= 0 && fcntl(1040, F_GETFD) < 0);
    rt::mode = rt::SEQ;
    rt::vclock_reset();
    rt::on_assert = assert_hook;
    anchor = rt::kq_open();
    if (anchor < 0) { report("kqueue() failed"); _exit(42); }
}
// Execute a fixed prefix, then extend with the first applicable operation up to depth (if extend).
// en: operations applicable at each position.  Returns false if the prefix is not applicable.
static bool run(const std::vector<int> &prefix, int depth, bool extend, std::vector<int> &path, std::vector<std::vector<int>> *en, uint64_t *hash = nullptr)
{
    WShared &ws = sh->w[wid];
    ws.npath = 0; ws.beat++;
    path.clear();
    if (en) en->clear();
    W->begin();
    bool ok = true;
    for (int pos = 0; pos < depth; pos++) {
        int op = -1;
        if (en && (extend || pos < (int)prefix.size())) {
            std::vector<int> e;
            for (size_t i = 0; i < W->ops.size(); i++) if (W->ops[i].pre()) e.push_back(i);
            en->push_back(e);
            if (pos >= (int)prefix.size()) { if (e.empty()) { en->pop_back(); break; } op = e[0]; }
        }
        if (pos < (int)prefix.size()) { op = prefix[pos]; if (!W->ops[op].pre()) { ok = false; break; } }
        if (op < 0) break;
        path.push_back(op);
        if (ws.npath < MAXPATH) ws.path[ws.npath++] = op;
        W->exec(op);
        ws.steps++;
    }
    if (hash) *hash = W->hash();
    if (en && !extend && ok) { std::vector<int> e; for (size_t i = 0; i < W->ops.size(); i++) if (W->ops[i].pre()) e.push_back(i); en->push_back(e); }
    W->end();
    ws.seqs++;
    if ((int)path.size() > ws.maxlen) ws.maxlen = path.size();
    return ok;
}
[[noreturn]] static void bail(const Fail &f) { report(f.what()); _exit(42); }

static void full_worker(int depth)
{
    int nop = W->ops.size();
    long items = depth >= 2 ? (long)nop * nop : nop;
    std::vector<int> path;
    std::vector<std::vector<int>> en;
    for (;;) {
        long it = sh->next++;
        if (it >= items || sh->stop) break;
        std::vector<int> prefix;
        if (depth >= 2) { prefix.push_back(it / nop); prefix.push_back(it % nop); } else prefix.push_back(it);
        size_t fixed = prefix.size();
        for (;;) {
            if (now() > t_end) { sh->stop = 2; break; }
            bool ok;
            try { ok = run(prefix, depth, true, path, &en); } catch (Fail &f) { bail(f); }
            if (!ok) break;
            // advance to the next leaf
            int p = path.size() - 1;
            bool more = false;
            for (; p >= (int)fixed; p--) {
                auto &e = en[p];
                auto i = std::find(e.begin(), e.end(), path[p]);
                if (i + 1 != e.end()) { prefix.assign(path.begin(), path.begin() + p); prefix.push_back(*(i + 1)); more = true; break; }
            }
            if (!more || sh->stop) break;
        }
        if (sh->stop == 2) break;
    }
}
static bool visit(uint64_t h)
{
    if (!h) h = 1;
    for (uint64_t i = h % table_size;; i = (i + 1) % table_size) {
        uint64_t c = table[i].load();
        if (c == h) return false;
        if (c == 0) { uint64_t z = 0; if (table[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; }
    }
}
static void path_of(uint32_t n, std::vector<int> &p)
{
    p.clear();
    while (n != 0) { p.push_back(nodes[n].op); n = nodes[n].parent; }
    std::reverse(p.begin(), p.end());
}
static void closure_worker(int maxdepth)
{
    std::vector<int> path, pre, q;
    std::vector<std::vector<int>> en;
    for (;;) {
        if (sh->stop) break;
        if (now() > t_end) { sh->stop = 2; break; }
        long it = sh->next.load();
        if (it >= (long)sh->nnodes.load()) {
            if (sh->done.load() >= sh->nnodes.load()) break;
            usleep(500); sh->w[wid].beat++;
            continue;
        }
        if (!sh->next.compare_exchange_strong(it, it + 1)) continue;
        while (nodes[it].depth == 255) usleep(10);
        path_of(it, pre);
        if ((int)pre.size() < maxdepth) {
            try { run(pre, pre.size(), false, path, &en); } catch (Fail &f) { sh->done++; bail(f); }
            std::vector<int> e = en.back();
            for (int op : e) {
                q = pre; q.push_back(op);
                uint64_t h = 0;
                try { run(q, q.size(), false, path, nullptr, &h); } catch (Fail &f) { sh->done++; bail(f); }
                sh->transitions++;
                if (visit(h)) {
                    uint32_t n = sh->nnodes.load();
                    if (n + 8 >= max_nodes) { sh->stop = 3; break; }
                    int z = 0;
                    while (!sh->spin.compare_exchange_weak(z, 1)) z = 0;
                    n = sh->nnodes.load();
                    nodes[n].parent = it; nodes[n].op = op; nodes[n].depth = q.size();
                    sh->nnodes = n + 1;
                    sh->spin = 0;
                }
                if (sh->stop) break;
            }
        }
        sh->done++;
    }
}
static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; }
    return o + "\"";
}
static std::string path_json(const int *p, int n) { std::string s = "["; for (int i = 0; i < n; i++) s += (i ? "," : "") + jstr(W->ops[p[i]].name); return s + "]"; }

static int seq_main(int argc, char **argv)
{
    // kqmc seq WORLD full|closure DEPTH BUDGET_S JOBS [hist]
    if (argc < 6) return 2;
    std::string wname = argv[1], mode = argv[2];
    int depth = atoi(argv[3]); double budget = atof(argv[4]); int jobs = atoi(argv[5]);
    W = make_world(wname);
    if (argc > 6) W->hist_in_hash = atoi(argv[6]);
    sh = (Shared *)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (mode == "closure") {
        nodes = (Node *)mmap(0, sizeof(Node) * max_nodes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        table = (std::atomic<uint64_t> *)mmap(0, 8 * table_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        sh->nnodes = 1;
    }
    double t0 = now();
    t_end = t0 + budget;
    pid_t pids[MAXW]; long lastbeat[MAXW]; double beat_t[MAXW]; std::string errf[MAXW];
    int live = 0, restarts = 0;
    auto spawn = [&](int i) {
        errf[i] = scratch + fmt("/err%d.%d", i, restarts);
        pids[i] = fork();
        if (pids[i] == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            wid = i;
            int fd = open(errf[i].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2); dup2(fd, 1); close(fd);
            worker_init();
            if (mode == "full") full_worker(depth); else closure_worker(depth);
            _exit(0);
        }
        lastbeat[i] = -1; beat_t[i] = now(); live++;
    };
    for (int i = 0; i < jobs; i++) spawn(i);
    while (live > 0) {
        for (int i = 0; i < jobs; i++) {
            if (pids[i] <= 0) continue;
            int st;
            bool dead = waitpid(pids[i], &st, WNOHANG) == pids[i];
            bool hung = false;
            if (!dead) {
                long b = sh->w[i].beat;
                if (b != lastbeat[i]) { lastbeat[i] = b; beat_t[i] = now(); }
                else if (now() - beat_t[i] > 30) { kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); dead = hung = true; }
            }
            if (!dead) continue;
            live--;
            pids[i] = 0;
            bool clean = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            if (!clean && !(WIFEXITED(st) && WEXITSTATUS(st) == 42)) {
                std::string m = hung ? "hang: the call never returned" : WIFEXITED(st) && WEXITSTATUS(st) == 43 ? std::string("environment failed") : WIFSIGNALED(st) ? fmt("crash: signal %d", WTERMSIG(st)) : fmt("crash: exit status %d", WEXITSTATUS(st));
                FILE *f = fopen(errf[i].c_str(), "r");
                if (f) { char b[512]; while (fgets(b, sizeof b, f)) if (strstr(b, "ERROR: ") || strstr(b, "SUMMARY") || strstr(b, "terminate") || strstr(b, "environment")) { m += " | "; m += b; } fclose(f); }
                wid = i;
                report(m.c_str());
                if (mode == "closure") sh->done++;
            }
            if (!clean && !sh->stop && restarts < 8) { restarts++; spawn(i); }
        }
        usleep(2000);
    }
    long seqs = 0, steps = 0; int maxlen = 0;
    for (int i = 0; i < MAXW; i++) { seqs += sh->w[i].seqs; steps += sh->w[i].steps; maxlen = std::max(maxlen, sh->w[i].maxlen); }
    bool exhaustive = sh->stop == 0 && sh->nviol == 0;
    printf("{\"world\":%s,\"mode\":%s,\"depth\":%d,\"ops\":%zu,\"sequences\":%ld,\"steps\":%ld,\"maxlen\":%d,\"states\":%u,\"transitions\":%ld,\"exhaustive\":%s,\"wall\":%.1f,\"sample\":%s,\"violations\":[",
           jstr(wname).c_str(), jstr(mode).c_str(), depth, W->ops.size(), seqs, steps, maxlen, sh->nnodes.load(), sh->transitions.load(), exhaustive ? "true" : "false", now() - t0,
           path_json(sh->w[0].path, sh->w[0].npath).c_str());
    long nv = std::min<long>(sh->nviol, MAXV);
    for (long i = 0; i < nv; i++) printf("%s{\"ops\":%s,\"msg\":%s}", i ? "," : "", path_json(sh->v[i].path, sh->v[i].n).c_str(), jstr(sh->v[i].msg).c_str());
    printf("]}\n");
    return 0;
}
static int replay_main(int argc, char **argv)
{
    // kqmc replay WORLD op...   exit 0 ok, 1 violation (message on stdout), 3 not applicable
    W = make_world(argv[1]);
    sh = (Shared *)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<int> p, path;
    for (int i = 2; i < argc; i++) {
        int k = -1;
        for (size_t j = 0; j < W->ops.size(); j++) if (W->ops[j].name == argv[i]) k = j;
        if (k < 0) { printf("unknown operation %s\n", argv[i]); return 2; }
        p.push_back(k);
    }
    alarm(90);
    wid = 0;
    worker_init();
    rt::on_assert = [](const char *m) { printf("VIOLATED %s\n", m); fflush(stdout); _exit(1); };
    try {
        if (!run(p, p.size(), false, path, nullptr)) { printf("not applicable\n"); _exit(3); }
    } catch (Fail &f) {
        printf("VIOLATED at step %zu (%s): %s\n", path.size(), path.empty() ? "begin" : W->ops[path.back()].name.c_str(), f.what());
        fflush(stdout);
        _exit(1);
    }
    printf("ok\n");
    fflush(stdout);
    _exit(0);
}
int main(int argc, char **argv)
{
    const char *s = getenv("KQMC_SCRATCH");
    scratch = s ? s : "/tmp/kqmc-scratch";
    mkdir(scratch.c_str(), 0700);
    signal(SIGPIPE, SIG_IGN);
    if (argc < 2) return 2;
    std::string c = argv[1];
    if (c == "seq") return seq_main(argc - 1, argv + 1);
    if (c == "replay") return replay_main(argc - 1, argv + 1);
    if (c == "list") { for (auto &d : world_defs()) { World *w = d.make(); printf("%s %zu\n", d.name.c_str(), w->ops.size()); } return 0; }
    if (c == "ops") { World *w = make_world(argv[2]); for (auto &o : w->ops) printf("%s\n", o.name.c_str()); return 0; }
#ifdef WITH_SCHED
    if (c == "sched") return sched_main(argc - 1, argv + 1);
#endif
    return 2;
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
