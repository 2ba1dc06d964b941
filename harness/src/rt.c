/* Native implementation of the harness intrinsics: replays a list of concrete inputs.
   In the symbolic executor these functions are declarations and modelled directly. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <stdarg.h>
#include <pthread.h>

static FILE *in;
static int missing;
/* Opens the inputs before the harness replaces any function of the system. */
__attribute__((constructor)) static void start(void) { const char *p = getenv("SYMEX_INPUT"); in = p ? fopen(p, "r") : NULL; }
static unsigned long long next(void) {
    unsigned long long v = 0;
    if (in && fscanf(in, "%llu", &v) != 1) { v = 0; missing = 1; }
    return v;
}
/* Runs that do not use exactly the inputs of the path are not runs of that path. */
void symex_finish(void) {
    unsigned long long v;
    if (in && (missing || fscanf(in, "%llu", &v) == 1)) { printf("INPUTS %s\n", missing ? "missing" : "left"); fflush(stdout); _Exit(5); }
    printf("DONE\n"); fflush(stdout);
}
uint8_t symex_u8(void) { return (uint8_t)next(); }
uint16_t symex_u16(void) { return (uint16_t)next(); }
uint32_t symex_u32(void) { return (uint32_t)next(); }
uint64_t symex_u64(void) { return (uint64_t)next(); }
void symex_bytes(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)next(); }
uint32_t symex_choose(uint32_t n) { uint32_t v = (uint32_t)next(); if (v >= n) { printf("ASSUME-FAIL choose\n"); fflush(stdout); _Exit(77); } return v; }
void symex_assume(uint32_t c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _Exit(77); } }
void symex_check(uint32_t c, const char *l, size_t n) { if (!c) { printf("CHECK-FAIL %.*s\n", (int)n, l); fflush(stdout); _Exit(42); } }
void symex_observe(uint64_t v, const char *l, size_t n) { printf("OBS %.*s=%llu\n", (int)n, l, (unsigned long long)v); }
void symex_observe_bytes(const uint8_t *p, size_t k, const char *l, size_t n) {
    printf("OBS %.*s.len=%zu\n", (int)n, l, k);
    for (size_t i = 0; i < k; i++) printf("OBS %.*s[%zu]=%u\n", (int)n, l, i, p[i]);
}
void symex_cover(const char *l, size_t n) { (void)l; (void)n; }
void symex_done(void) { symex_finish(); _Exit(0); }
uint64_t symex_conc(uint64_t v) { return v; }
void symex_log(const char *l, size_t n) { fprintf(stderr, "LOG %.*s\n", (int)n, l); }
void symex_label(const char *l, size_t n) { (void)l; (void)n; }
uint32_t symex_symbolic(void) { return 0; }
/* Fixed hash seeds, as in the executor. */
ssize_t getrandom(void *b, size_t n, unsigned f) { (void)f; for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)(17 + i * 13); return (ssize_t)n; }
/* A second thread that takes turns with the first one: when one waits, the other goes on. */
static pthread_mutex_t turn_lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t turn_cond = PTHREAD_COND_INITIALIZER;
static int turn, threads;
static __thread int me;
static void (*thread_main)(void *);
static void *thread_arg;
static void my_turn(void) { while (turn != me) pthread_cond_wait(&turn_cond, &turn_lock); pthread_mutex_unlock(&turn_lock); }
static void *thread_start(void *x) { (void)x; me = 1; pthread_mutex_lock(&turn_lock); my_turn(); thread_main(thread_arg); _Exit(6); }
void symex_thread(void (*f)(void *), void *x) {
    pthread_attr_t a;
    pthread_t t;
    thread_main = f; thread_arg = x; threads = 1;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 64 << 20);
    if (pthread_create(&t, &a, thread_start, NULL)) _Exit(6);
}
void symex_turn(void) { if (!threads) return; pthread_mutex_lock(&turn_lock); turn = 1 - me; pthread_cond_broadcast(&turn_cond); my_turn(); }
long syscall(long n, ...) {
    va_list v; va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long), r;
    va_end(v);
    if (n == 202 && threads) { int op = (int)b & 127; if (op == 0 || op == 9) symex_turn(); return 0; }
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { extern int *__errno_location(void); *__errno_location() = (int)-r; return -1; }
    return r;
}
