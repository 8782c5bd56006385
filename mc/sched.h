// Scenario library for the schedule / fault explorer.
#pragma once
#include "rt.h"
#include <atomic>
#include <errno.h>
#include <functional>
#include <string.h>
#include <string>
#include <unistd.h>
#include <vector>

struct Res { std::atomic<int> bad; int finished; char msg[1400]; uint64_t outcome; long injected; long ncalls; rt::CallRec calls[600]; rt::Trace tr; };
extern Res *R;

[[noreturn]] void sfail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void note(uint64_t v);                                  // contributes to the observed outcome
std::string sf(const char *f, ...) __attribute__((format(printf, 1, 2)));
void check_rt(const char *what);
int spawn(std::function<void()> fn, const char *name);

struct Scn {
    std::string name;
    std::function<void()> body;                         // runs as thread 0 in a fresh process
    int spurious = 0;
};
struct Family { std::string name; bool fault; std::function<void(std::vector<Scn> &, int level)> make; };
std::vector<Family> &families();
struct RegFam { RegFam(const char *n, bool fault, std::function<void(std::vector<Scn> &, int)> f) { families().push_back({ n, fault, f }); } };

// ---- thin calls ----
extern const struct timespec ZT;
int chg(int kq, uintptr_t id, short filt, unsigned flags, unsigned ff = 0, long data = 0, void *ud = nullptr);   // 0 or errno
int get(int kq, struct kevent *ev, int n, const struct timespec *ts = &ZT);       // -errno on failure
void need(bool c, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
