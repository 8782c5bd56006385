// Runtime boundary between the library under test and the operating system.
//
// Every system call / pthread call / allocation made by libkqueue is linked through
// a __wrap_ function (ld --wrap).  Three modes:
//   PASS   the call goes straight to libc
//   SEQ    single caller: virtual clock, descriptor/heap ledger, fault injection
//   SCHED  as SEQ, plus a cooperative scheduler that owns every thread switch
#pragma once
#include <functional>
#include <pthread.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string>
#include <sys/event.h>
#include <sys/types.h>
#include <time.h>
#include <vector>

namespace rt {

enum Mode { PASS, SEQ, SCHED };
extern Mode mode;
extern thread_local int inlib;   // >0 while this thread executes library code

struct InLib { InLib() { inlib++; } ~InLib() { inlib--; } };

// ---- violations raised inside the boundary layer -----------------------------------
// (a library that closes a foreign fd, would block for ever, ...).  Collected here,
// polled by the engine after every step.
extern std::vector<std::string> faults_seen;
void complain(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern int fake_pid, fake_code, fake_status;   // what the library is told about the end of this child
extern int closing;               // library threads that are inside close() right now
extern bool blocked_forever;      // the last call would have waited indefinitely
extern bool block_is_ok;

// ---- ledger -------------------------------------------------------------------------
struct Ledger { long fds; long blocks; };
Ledger ledger();                          // descriptors and heap blocks held by the library
std::string ledger_detail();
void ledger_user_close(int fd);           // the user closes a kqueue descriptor
bool ledger_owns(int fd);
long ledger_kind(const char *kind);       // descriptors of one kind held by the library
bool ledger_check_cloexec(std::string &why);   // all library descriptors are close-on-exec
void ledger_forget_all();                 // child of fork: keep table, no-op hook

// ---- virtual clock ------------------------------------------------------------------
extern int64_t vnow;                      // monotonic, ns
extern const int64_t REAL_OFF;            // realtime - monotonic
void vclock_reset();
void vclock_advance(int64_t dt);          // fires virtual timers
int  vtimers_armed();

struct EnvEvent { int64_t t; std::function<void()> f; };
extern std::vector<EnvEvent> env_at;      // what the outside world does while a call waits (sorted; each happens once)
extern int pipe_at; extern unsigned long filtered_ino;
extern long mid_at, mid_no; extern bool mid_busy; extern std::function<void()> mid_f;   // what the outside world does right before the mid_at-th system call of a library call
extern int64_t intr_at;                   // virtual time at which a signal interrupts a wait (-1: never); fires once

// ---- fault injection ----------------------------------------------------------------
enum Site { S_NONE, S_EPOLL_CREATE, S_EPOLL_CTL, S_EPOLL_WAIT, S_PPOLL, S_PIPE, S_EVENTFD, S_TIMERFD_CREATE,
  S_TIMERFD_SETTIME, S_SIGNALFD, S_INOTIFY_INIT, S_INOTIFY_ADD, S_FCNTL, S_READ, S_WRITE, S_IOCTL, S_FSTAT, S_LSEEK,
  S_GETSOCKOPT, S_WAITID, S_SYSCALL, S_MALLOC, S_PTHREAD_CREATE, S_READLINK, S_SIGMASK, S_GETRLIMIT, S_CLOSE, S_MMAP, S_NSITES };
const char *site_name(int s);
struct CallRec { int site; int arg; };
extern std::vector<CallRec> calls;        // fault-injectable calls since fault_begin()
extern bool record_calls;
enum { FD_ZERO = 9000 };                  // Inject::err: not a failure, the descriptor returned is number 0 (FD_ZERO + 1: the second one of a pair)
struct Inject { long at; int err; };      // fail the at-th injectable call with errno err
extern std::vector<Inject> injects;
extern long call_no;
extern int last_err;                       // errno of the last one
extern long rlim_override;                // hard descriptor limit the library sees
extern int injected;                      // how many were actually injected
void fault_begin(const std::vector<Inject> &v, bool record);
void fault_end();

// ---- guard allocator for library allocations (SCHED mode) ----------------------------
extern bool guard_alloc;

// ---- scheduler ------------------------------------------------------------------------
struct Choice { uint8_t n, chosen, cur, cur_enabled; uint8_t en[8]; };
struct Trace { int n; int truncated; Choice c[6000]; };

void sched_start(const uint8_t *prefix, int nprefix, Trace *tr);  // the caller becomes thread 0
int  sched_spawn(void (*fn)(void *), void *arg, const char *name); // returns thread id
void sched_join(int id);
void sched_point(const char *what);       // explicit switch point for harness actions
void sched_cancel(int id);
bool sched_done(int id);
bool sched_cancelled(int id);             // finished by cancellation
int  sched_self();
std::string sched_dump();
extern bool sched_explore;                 // off: default schedule, nothing recorded
void sched_quiesce();                     // run until no other thread can make progress
extern void (*sched_on_deadlock)(const std::string &why);
extern long sched_steps;
extern int spurious_budget;               // condition variables may wake spuriously this often
void sched_after_fork_child();
void sched_settle();
void sched_on_fd_event();                 // something closed/changed: re-examine waiters
extern bool yield_on_all;                 // switch points at every system call, not only locks

// happens-before edges, reported to the fine-grained variant (fine.cc)
enum Hb { HB_ACQ, HB_REL, HB_SPAWN, HB_JOIN };
extern void (*hb_hook)(Hb op, const void *obj, int other);
extern void (*buf_hook)(const void *p, size_t n, void *site);     // a system call wrote there

// API used by the harness to call the library -----------------------------------------
int  kq_open();
int  kq_event(int kq, const struct kevent *ch, int nch, struct kevent *ev, int nev, const struct timespec *ts);
int  kq_close(int fd);
pid_t lib_fork();
[[noreturn]] void lib_exit(int code);

} // namespace rt
