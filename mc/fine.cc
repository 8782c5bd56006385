// Race-directed switch points.
//
// This variant links the library compiled with -fsanitize=thread, but against the callbacks below instead of the
// ThreadSanitizer runtime.  Vector clocks over mutexes, thread creation/join, pthread_once and atomic operations tell
// which pairs of memory accesses of different threads are not ordered; the code addresses of such accesses become
// additional switch points of the next round of the exploration.  Nothing is reported here: an unordered pair is not a
// violation by itself, the scenarios judge what the calls return.
#include "fine.h"
#include "rt.h"
#include <string.h>
#include <unordered_map>

namespace fine {
Set *cur, *next;
static unsigned h(uint64_t pc) { return (pc * 0x9E3779B97F4A7C15ull) >> 40; }
bool has(const Set *s, uint64_t pc) { for (unsigned i = h(pc), k = 0; k < N; i++, k++) { uint64_t v = s->pc[i % N]; if (v == pc) return true; if (!v) return false; } return false; }
bool add(Set *s, uint64_t pc)
{
    if (__atomic_load_n(&s->n, __ATOMIC_RELAXED) > N / 2) return false;
    for (unsigned i = h(pc), k = 0; k < N; i++, k++) {
        uint64_t z = 0, *p = &s->pc[i % N];
        if (__atomic_load_n(p, __ATOMIC_RELAXED) == pc) return false;
        if (__atomic_compare_exchange_n(p, &z, pc, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { __atomic_add_fetch(&s->n, 1, __ATOMIC_SEQ_CST); return true; }
        if (z == pc) return false;
    }
    return false;
}
#ifdef KQ_FINE
bool linked = true;
enum { T = 16 };
struct VC { uint32_t c[T]; };
static VC tv[T];
struct Cell { int wt; uint32_t wc; uint64_t wpc; uint32_t rc[T]; uint64_t rpc[T]; };
static std::unordered_map<const void *, VC> *sync_;
static std::unordered_map<uintptr_t, Cell> *mem;
static void init() { if (!mem) { mem = new std::unordered_map<uintptr_t, Cell>(); sync_ = new std::unordered_map<const void *, VC>(); for (int i = 0; i < T; i++) tv[i].c[i] = 1; } }
static void joinvc(VC &a, const VC &b) { for (int i = 0; i < T; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void hook(rt::Hb op, const void *o, int other)
{
    int me = rt::sched_self();
    if (me < 0) return;
    init();
    switch (op) {
    case rt::HB_ACQ: { auto it = sync_->find(o); if (it != sync_->end()) joinvc(tv[me], it->second); break; }
    case rt::HB_REL: joinvc((*sync_)[o], tv[me]); tv[me].c[me]++; break;
    case rt::HB_SPAWN: joinvc(tv[other], tv[me]); tv[me].c[me]++; break;
    case rt::HB_JOIN: joinvc(tv[me], tv[other]); break;
    }
}
static inline bool on() { return rt::mode == rt::SCHED && rt::inlib && rt::sched_self() >= 0; }
static void access(const void *a, size_t n, bool w, uint64_t pc)
{
    if (!on()) return;
    if (cur && rt::sched_explore && has(cur, pc)) rt::sched_point("memory access");
    int save = rt::inlib; rt::inlib = 0;
    init();
    int me = rt::sched_self();
    for (uintptr_t g = (uintptr_t)a >> 3, e = ((uintptr_t)a + n - 1) >> 3; g <= e; g++) {
        Cell &c = (*mem)[g];
        if (c.wc && c.wt != me && c.wc > tv[me].c[c.wt] && next) { add(next, c.wpc); add(next, pc); }
        if (w) {
            for (int i = 0; i < T; i++) if (i != me && c.rc[i] > tv[me].c[i] && next) { add(next, c.rpc[i]); add(next, pc); }
            c.wt = me; c.wc = tv[me].c[me]; c.wpc = pc;
        } else { c.rc[me] = tv[me].c[me]; c.rpc[me] = pc; }
    }
    rt::inlib = save;
}
// a system call fills memory that belongs to the library
static void syswrite(const void *p, size_t n, void *site) { access(p, n, true, (uint64_t)site); }
static struct Setup { Setup() { rt::hb_hook = hook; rt::buf_hook = syswrite; } } setup;
// an atomic operation is a switch point only where another thread's access to the same location is not ordered with it
static void atomic(const void *a, size_t n, bool w, uint64_t pc)
{
    if (!on()) return;
    access(a, n, w, pc);
    int save = rt::inlib; rt::inlib = 0;
    hook(rt::HB_ACQ, a, 0); hook(rt::HB_REL, a, 0);
    rt::inlib = save;
}
#else
bool linked = false;
#endif
} // namespace fine

#ifdef KQ_FINE
#define PC ((uint64_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { fine::access(p, n, false, PC); } void __tsan_write##n(void *p) { fine::access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { fine::access(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { fine::access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { fine::access(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { fine::access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) fine::access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { if (n) fine::access(p, n, true, PC); }
void __tsan_vptr_update(void **, void *) {}
// the library's references to these are renamed in its archive
void *kqf_memcpy(void *d, const void *s, size_t n) { if (n) { fine::access(s, n, false, PC); fine::access(d, n, true, PC); } return memmove(d, s, n); }
void *kqf_memmove(void *d, const void *s, size_t n) { if (n) { fine::access(s, n, false, PC); fine::access(d, n, true, PC); } return memmove(d, s, n); }
void *kqf_memset(void *d, int c, size_t n) { if (n) fine::access(d, n, true, PC); return memset(d, c, n); }
#define AT(b, t) \
    t __tsan_atomic##b##_load(const volatile t *a, int) { fine::atomic((void *)a, sizeof(t), false, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile t *a, t v, int) { fine::atomic((void *)a, sizeof(t), true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_exchange(volatile t *a, t v, int) { fine::atomic((void *)a, sizeof(t), true, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int) { fine::atomic((void *)a, sizeof(t), true, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int) { fine::atomic((void *)a, sizeof(t), true, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int) { fine::atomic((void *)a, sizeof(t), true, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int) { fine::atomic((void *)a, sizeof(t), true, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int) { fine::atomic((void *)a, sizeof(t), true, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_fetch_nand(volatile t *a, t v, int) { fine::atomic((void *)a, sizeof(t), true, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *c, t v, int, int) { fine::atomic((void *)a, sizeof(t), true, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *c, t v, int, int) { fine::atomic((void *)a, sizeof(t), true, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t c, t v, int, int) { fine::atomic((void *)a, sizeof(t), true, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#endif
