// Sequential explorer: worlds, reference model, exhaustive enumeration of operation sequences.
#pragma once
#include "rt.h"
#include <fcntl.h>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string.h>
#include <string>
#include <unistd.h>
#include <vector>

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string kev_str(const struct kevent &k);
const char *filt_name(int f);

enum Tri { NO, MAY, MUST };

struct World;
struct Slot;

struct Hash {
    uint64_t h = 1469598103934665603ull;
    void add(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } }
};

struct Op {
    std::string name;
    std::function<bool()> pre;
    std::function<void()> run;
};

// ---- watched objects -----------------------------------------------------------------------
struct Obj {
    World *w = nullptr;
    std::string name;
    virtual ~Obj() {}
    virtual void setup() = 0;
    virtual void teardown() = 0;
    virtual void hash(Hash &h) = 0;
    virtual int fd(int side) { return -1; }
    virtual bool rd_ready(int side) { return false; }
    virtual bool rd_eof(int side) { return false; }
    virtual long rd_data(int side) { return 0; }      // -1: not checked
    virtual bool wr_ready(int side) { return false; }
    virtual bool wr_eof(int side) { return false; }
    virtual int *sockerr() { return nullptr; }         // error the socket has to report
    int at = -1;                                       // the number its watched end gets
    void place(int &f) { if (at < 0) return; int n = fcntl(f, F_DUPFD_CLOEXEC, at); if (n != at) abort(); close(f); f = n; }
    int err0 = 0;                                      // that error when the call that is being judged was made
    virtual bool at_mark() { return false; }           // urgent data ahead of the readable bytes
    virtual bool is_file() { return false; }
    virtual bool is_listen() { return false; }
    virtual void add_ops(std::vector<Op> &ops) {}
};

// ---- one potential registration and its reference model --------------------------------------
struct Slot {
    World *w = nullptr;
    std::string name;
    int kq = 0;
    short filt = 0;
    Obj *obj = nullptr;
    int side = 0;
    uintptr_t uid = 0;
    uint32_t areq = 0;             // fflags used by plain adds (VNODE request mask, PROC NOTE_EXIT)
    int64_t per = 0; uint32_t tunit = 0;   // timer parameters used by plain adds

    // model
    bool present = false, enabled = false, oneshot = false, dispatch = false, clear = false;
    uintptr_t udata = 0;
    Tri edge = NO;                 // clear mode only
    bool parked = false;           // regular file looked at while at end of file (known finding F-FILE-EOF)
    bool trig = false; uint32_t uff = 0;               // USER
    int64_t next = 0, interval = 0; bool armed = false; // TIMER
    int64_t cfg_data = 0; uint32_t cfg_ff = 0;
    uint32_t vmust = 0, vmay = 0;  // VNODE: changes to be reported
    int vnlink = 0; long vsize = 0;
    bool vstale = false;
    bool wide = false;             // the ident is that of the object plus 2^32: there is no such descriptor, process or signal
    int skipped = 0;               // consecutive full collects that left this (ready) one out

    uintptr_t ident() const;
    bool cond();                   // level condition
    Tri ready();
    void check(const struct kevent &e);
    void check_err(const struct kevent &e);
    void delivered(const struct kevent &e);
    void arm_timer();
    void touch_shared();
    void removed();
    void on_enable();
    void hash(Hash &h);
};

struct Change { Slot *s; unsigned flags; uint32_t fflags; int64_t data; uintptr_t udata; short badfilt = 0; bool raw = false; };

struct World {
    std::string name;
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<std::unique_ptr<Slot>> slots;
    std::vector<Op> ops;
    int nkq = 1;
    int kq_far = 0;                // the second kqueue's number is that much larger than the first's
    std::vector<int> kqs;
    std::vector<int> hist;         // ops executed so far
    int hist_in_hash = 2;
    int style = 0;                 // 0: changes submitted without event list, 1: with receipts
    bool check_min = true;         // a collect returns min(pending, size) events
    bool strict = false;           // no allowance for known findings
    bool fair = false;             // nothing pending is left out for ever
    rt::Ledger base{}, empty{};
    bool check_ledger = true;
    bool high = false;                      // every descriptor number below 1040 is taken
    bool free0 = false;                     // standard input is closed: the first descriptor made in a history is number 0
    std::function<void()> on_begin, on_end;
    std::function<void(Slot *)> on_event;
    int nofile = 256;              // descriptor limit of the exploring process
    int expected_fail = 0;
    std::function<void(Hash &)> extra_hash;
    std::map<int, int> sigpend; std::map<int, bool> sigblocked;
    std::map<int, int> handled;
    int sigtook = 0;               // signal the program consumed in the middle of the current call

    Slot *slot(const char *nm, int kq, short filt, Obj *o, int side, uintptr_t uid = 0);
    template <class T> T *obj(T *o) { o->w = this; objs.emplace_back(o); return o; }
    Op &op(std::string nm, std::function<bool()> pre, std::function<void()> run) { ops.push_back({ nm, pre, run }); return ops.back(); }

    // actions
    int model_change(const Change &c);              // returns expected errno (0 = success, -1 = any error)
    struct kevent to_kev(const Change &c);
    void change(Slot *s, unsigned flags, uint32_t fflags = 0, int64_t data = 0, uintptr_t udata = 0);
    int collect(int kq, int k, const struct timespec *ts = nullptr, bool block = false);
    void process_events(int kq, const struct kevent *ev, int n, int k, const char *what);
    int call(int kq, const struct kevent *ch, int nch, struct kevent *out, int nev, const struct timespec *ts);
    void check_rt(const char *what);
    void notify_rd(Obj *o, int side);      // new readable data/eof/connection on descriptor
    void notify_rd_may(Obj *o, int side);
    void notify_wr(Obj *o, int side, bool must);
    void vnode_change(Obj *o, uint32_t must, uint32_t may);

    void close_kq(int i);
    void reopen_kq(int i);
    void begin();
    void end();
    void abandon();
    void exec(int op);
    uint64_t hash();
};

// helper builders ---------------------------------------------------------------------------------
enum { M_LEVEL = 0, M_ONESHOT = 1, M_DISPATCH = 2, M_CLEAR = 4, M_DIS = 8, M_UD2 = 16, M_ENA = 32, M_SYS = 64, M_UD0 = 128 };
void op_add(World *w, Slot *s, int mode);
void op_readd(World *w, Slot *s, int mode);
void op_enable(World *w, Slot *s);
void op_disable(World *w, Slot *s);
void op_delete(World *w, Slot *s);
bool nameless(Slot *s);      // a file nobody can name any more
void op_collect(World *w, int kq, int k);
void op_drain1(World *w, int kq);
void op_mid(World *w, int kq, int k, int j, Op e, int64_t tmo);
void op_change(World *w, Slot *s, std::string nm, unsigned flags, uint32_t ff, int64_t data, std::function<bool()> pre = nullptr);
void op_adv(World *w, int64_t ns);
void op_trigger(World *w, Slot *s, uint32_t ctrl, uint32_t val, bool trig);

Obj *mk_pipe(World *w, const char *nm);
Obj *mk_fifo(World *w, const char *nm);
Obj *mk_sock(World *w, const char *nm, int type);
Obj *mk_dupsock(World *, const char *);
Obj *mk_listen(World *w, const char *nm);
Obj *mk_tcp(World *w, const char *nm);
Obj *mk_udp(World *w, const char *nm);
Obj *mk_pty(World *w, const char *nm);
Obj *mk_ev(World *w, const char *nm);
Obj *mk_file(World *w, const char *nm);
Obj *mk_child(World *w, const char *nm);
Obj *mk_vfile(World *w, const char *nm);
Obj *mk_vdeep(World *w, const char *nm, int deep);
Obj *mk_vdir(World *w, const char *nm);
Obj *mk_sig(World *w, const char *nm, int signo);
uintptr_t obj_ident(Obj *o);
int64_t obj_status(Obj *o);
void obj_notify_flags(Obj *o, int which);     // restrict the environment operations offered (bitmask, object specific)

typedef std::function<World *()> WorldMaker;
struct WorldDef { std::string name; WorldMaker make; };
extern std::vector<WorldDef> &world_defs();
World *make_world(const std::string &name);
std::string scratch_dir();
