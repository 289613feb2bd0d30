// What an instrumented build (rustc's thread sanitizer instrumentation) calls: before every atomic access the scheduler
// of sxrt may run another task. Threads of the program become such tasks.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
typedef unsigned __int128 u128;
extern void sx_race_point(void);
extern int sx_task_busy(void);
extern long sx_task_add(void *(*f)(void *), void *arg);
extern void sx_task_join(long k);
extern int sx_task_block(void);
extern void sx_task_yield(void);
extern void sx_task_progress(void);
static __thread int in;
static void point(void) { if (in) return; in = 1; sx_race_point(); in = 0; }
#define OPS(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int m) { point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile T *a, T v, int m) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int m) { point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int m) { point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int m) { point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int m) { point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int m) { point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int m) { point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int m) { point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, m, f); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, m, f); return c; }
OPS(8, uint8_t) OPS(16, uint16_t) OPS(32, uint32_t) OPS(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { point(); }
void __tsan_atomic_signal_fence(int m) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#define NOP(name) void name(void *a, void *b) {}
NOP(__tsan_init) NOP(__tsan_func_entry) NOP(__tsan_func_exit) NOP(__tsan_read_range) NOP(__tsan_write_range) NOP(__tsan_vptr_update) NOP(__tsan_vptr_read) NOP(__tsan_ignore_thread_begin) NOP(__tsan_ignore_thread_end)
#define RW(n) NOP(__tsan_read##n) NOP(__tsan_write##n) NOP(__tsan_unaligned_read##n) NOP(__tsan_unaligned_write##n) NOP(__tsan_volatile_read##n) NOP(__tsan_volatile_write##n) NOP(__tsan_unaligned_volatile_read##n) NOP(__tsan_unaligned_volatile_write##n) NOP(__tsan_read_write##n) NOP(__tsan_unaligned_read_write##n)
RW(1) RW(2) RW(4) RW(8) RW(16)

// threads of the program; those of the scheduler itself are real ones
#define OURS 0x7100000000000000l
static int outer(void) { return in || sx_task_busy(); }
#define CALL(x) ({ in = 1; __typeof__(x) r_ = (x); in = 0; r_; })
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
    if (outer()) return real(t, a, f, arg);
    long k = CALL(sx_task_add(f, arg));
    *t = (pthread_t)(OURS + k);
    return 0;
}
int pthread_join(pthread_t t, void **r) {
    static int (*real)(pthread_t, void **);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_join");
    if (((long)t & OURS) != OURS || (long)t < 0) return real(t, r);
    in = 1; sx_task_join((long)t - OURS); in = 0;
    if (r) *r = 0;
    return 0;
}
int pthread_detach(pthread_t t) {
    static int (*real)(pthread_t);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_detach");
    return ((long)t & OURS) != OURS || (long)t < 0 ? real(t) : 0;
}
long syscall(long n, ...) {
    static long (*real)(long, ...);
    if (!real) real = dlsym(RTLD_NEXT, "syscall");
    va_list v; va_start(v, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(v, long); va_end(v);
    int op = a[1] & FUTEX_CMD_MASK;
    if (n == SYS_futex && (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) && !outer()) {
        if (__atomic_load_n((uint32_t *)a[0], __ATOMIC_SEQ_CST) != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
        if (CALL(sx_task_block())) return 0;
    }
    if (n == SYS_futex && (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) && !outer()) sx_task_progress();
    return real(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int sched_yield(void) { if (!outer()) { in = 1; sx_task_yield(); in = 0; } return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!outer()) { in = 1; sx_task_yield(); in = 0; } return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) { return nanosleep(t, r); }
