// Entry points of the -fsanitize=thread instrumentation, implemented as the simulator's seam: every
// memory access, atomic operation and fence of the code under test arrives here.  The ThreadSanitizer
// runtime itself is not linked.
#include "rt.h"
#include "thr.h"
#include <string.h>
#include <sanitizer/asan_interface.h>

using namespace sim;
namespace sim { extern int g_incode; }
extern "C" {
extern char __data_start, _end;
static inline int kind_of(const void *p) {
  return (const char *)p >= &__data_start && (const char *)p < &_end ? (int)Ev::data : (int)Ev::mem;
}
uint64_t sim_static_accesses;
static void bad(const void *p, size_t n, bool w) {
  (void)p;
  g_incode = 0;
  fail(w ? "memory:bad-write" : "memory:bad-read", "%s of %zu octets outside any live object", w ? "write" : "read", n);
}
static inline void rd(void *p, size_t n, int order = -1) {
  if (g_incode <= 0) return;
  int k = kind_of(p);
  sim_static_accesses += k == (int)Ev::data;
  sim_thr_event(k);
  if (__asan_region_is_poisoned(p, n)) bad(p, n, false);
  if (g_mm.load) g_mm.load(p, n, order);
}
static inline void wr(void *p, size_t n, int order = -1) {
  if (g_incode <= 0) return;
  sim_thr_event(kind_of(p));
  if (__asan_region_is_poisoned(p, n)) bad(p, n, true);
  if (g_mm.store) g_mm.store(p, n, order);
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void **p, void *) { wr(p, 8); }
void __tsan_vptr_read(void **p) { rd(p, 8); }
void __tsan_read1(void *p) { rd(p, 1); }
void __tsan_write1(void *p) { wr(p, 1); }
void __tsan_unaligned_read1(void *p) { rd(p, 1); }
void __tsan_unaligned_write1(void *p) { wr(p, 1); }
void __tsan_volatile_read1(void *p) { rd(p, 1); }
void __tsan_volatile_write1(void *p) { wr(p, 1); }
void __tsan_unaligned_volatile_read1(void *p) { rd(p, 1); }
void __tsan_unaligned_volatile_write1(void *p) { wr(p, 1); }
void __tsan_read_write1(void *p) { rd(p, 1); wr(p, 1); }
void __tsan_unaligned_read_write1(void *p) { rd(p, 1); wr(p, 1); }
void __tsan_read2(void *p) { rd(p, 2); }
void __tsan_write2(void *p) { wr(p, 2); }
void __tsan_unaligned_read2(void *p) { rd(p, 2); }
void __tsan_unaligned_write2(void *p) { wr(p, 2); }
void __tsan_volatile_read2(void *p) { rd(p, 2); }
void __tsan_volatile_write2(void *p) { wr(p, 2); }
void __tsan_unaligned_volatile_read2(void *p) { rd(p, 2); }
void __tsan_unaligned_volatile_write2(void *p) { wr(p, 2); }
void __tsan_read_write2(void *p) { rd(p, 2); wr(p, 2); }
void __tsan_unaligned_read_write2(void *p) { rd(p, 2); wr(p, 2); }
void __tsan_read4(void *p) { rd(p, 4); }
void __tsan_write4(void *p) { wr(p, 4); }
void __tsan_unaligned_read4(void *p) { rd(p, 4); }
void __tsan_unaligned_write4(void *p) { wr(p, 4); }
void __tsan_volatile_read4(void *p) { rd(p, 4); }
void __tsan_volatile_write4(void *p) { wr(p, 4); }
void __tsan_unaligned_volatile_read4(void *p) { rd(p, 4); }
void __tsan_unaligned_volatile_write4(void *p) { wr(p, 4); }
void __tsan_read_write4(void *p) { rd(p, 4); wr(p, 4); }
void __tsan_unaligned_read_write4(void *p) { rd(p, 4); wr(p, 4); }
void __tsan_read8(void *p) { rd(p, 8); }
void __tsan_write8(void *p) { wr(p, 8); }
void __tsan_unaligned_read8(void *p) { rd(p, 8); }
void __tsan_unaligned_write8(void *p) { wr(p, 8); }
void __tsan_volatile_read8(void *p) { rd(p, 8); }
void __tsan_volatile_write8(void *p) { wr(p, 8); }
void __tsan_unaligned_volatile_read8(void *p) { rd(p, 8); }
void __tsan_unaligned_volatile_write8(void *p) { wr(p, 8); }
void __tsan_read_write8(void *p) { rd(p, 8); wr(p, 8); }
void __tsan_unaligned_read_write8(void *p) { rd(p, 8); wr(p, 8); }
void __tsan_read16(void *p) { rd(p, 16); }
void __tsan_write16(void *p) { wr(p, 16); }
void __tsan_unaligned_read16(void *p) { rd(p, 16); }
void __tsan_unaligned_write16(void *p) { wr(p, 16); }
void __tsan_volatile_read16(void *p) { rd(p, 16); }
void __tsan_volatile_write16(void *p) { wr(p, 16); }
void __tsan_unaligned_volatile_read16(void *p) { rd(p, 16); }
void __tsan_unaligned_volatile_write16(void *p) { wr(p, 16); }
void __tsan_read_write16(void *p) { rd(p, 16); wr(p, 16); }
void __tsan_unaligned_read_write16(void *p) { rd(p, 16); wr(p, 16); }
void __tsan_read_range(void *p, unsigned long n) { if (n) rd(p, n); }
void __tsan_write_range(void *p, unsigned long n) { if (n) wr(p, n); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  if (g_incode > 0 && n) {
    sim_thr_event(kind_of(s));
    if (g_mm.copy && g_mm.copy(d, s, n)) return d;
    if (__asan_region_is_poisoned((void *)s, n)) bad(s, n, false);
    if (__asan_region_is_poisoned(d, n)) bad(d, n, true);
  }
  return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return __tsan_memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) {
  if (n) wr(d, n);
  if (n >= (1u << 20) && c == 0 && sparse_clear(d, n)) return d;
  return memset(d, c, n);
}
// an atomic operation: one indivisible step; the memory model sees it as a full store or load
static inline void at_load(const void *p, size_t n, int o) {
  if (g_incode <= 0) return;
  sim_thr_event((int)Ev::sync);
  if (__asan_region_is_poisoned((void *)p, n)) bad(p, n, false);
  if (g_mm.load) g_mm.load(p, n, o);
  if (o != 0 && g_mm.fence) g_mm.fence(2);
}
static inline void at_store(void *p, size_t n, int o) {
  if (g_incode <= 0) return;
  sim_thr_event((int)Ev::sync);
  if (__asan_region_is_poisoned(p, n)) bad(p, n, true);
  if (o != 0 && g_mm.fence) g_mm.fence(3);
  if (g_mm.store) g_mm.store(p, n, o);
}
static inline void at_stored(int o) { if (g_incode > 0 && o == 5 && g_mm.fence) g_mm.fence(5); }
static inline void at_rmw(void *p, size_t n) {
  if (g_incode <= 0) return;
  sim_thr_event((int)Ev::sync);
  if (__asan_region_is_poisoned(p, n)) bad(p, n, true);
  if (g_mm.fence) g_mm.fence(5);
}

unsigned char __tsan_atomic8_load(const volatile unsigned char *p, int o) { at_load((const void *)p, 1, o); return *p; }
void __tsan_atomic8_store(volatile unsigned char *p, unsigned char v, int o) { at_store((void *)p, 1, o); *p = v; at_stored(o); }
unsigned char __tsan_atomic8_exchange(volatile unsigned char *p, unsigned char v, int) { at_rmw((void *)p, 1); unsigned char r = *p; *p = v; return r; }
unsigned char __tsan_atomic8_fetch_add(volatile unsigned char *p, unsigned char v, int) { at_rmw((void *)p, 1); unsigned char r = *p; *p = (unsigned char)(r + v); return r; }
unsigned char __tsan_atomic8_fetch_sub(volatile unsigned char *p, unsigned char v, int) { at_rmw((void *)p, 1); unsigned char r = *p; *p = (unsigned char)(r - v); return r; }
unsigned char __tsan_atomic8_fetch_and(volatile unsigned char *p, unsigned char v, int) { at_rmw((void *)p, 1); unsigned char r = *p; *p = (unsigned char)(r & v); return r; }
unsigned char __tsan_atomic8_fetch_or(volatile unsigned char *p, unsigned char v, int) { at_rmw((void *)p, 1); unsigned char r = *p; *p = (unsigned char)(r | v); return r; }
unsigned char __tsan_atomic8_fetch_xor(volatile unsigned char *p, unsigned char v, int) { at_rmw((void *)p, 1); unsigned char r = *p; *p = (unsigned char)(r ^ v); return r; }
unsigned char __tsan_atomic8_fetch_nand(volatile unsigned char *p, unsigned char v, int) { at_rmw((void *)p, 1); unsigned char r = *p; *p = (unsigned char)(~(r & v)); return r; }
int __tsan_atomic8_compare_exchange_strong(volatile unsigned char *p, unsigned char *c, unsigned char v, int, int) { at_rmw((void *)p, 1); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
int __tsan_atomic8_compare_exchange_weak(volatile unsigned char *p, unsigned char *c, unsigned char v, int, int) { at_rmw((void *)p, 1); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
unsigned char __tsan_atomic8_compare_exchange_val(volatile unsigned char *p, unsigned char c, unsigned char v, int, int) { at_rmw((void *)p, 1); unsigned char r = *p; if (r == c) *p = v; return r; }

unsigned short __tsan_atomic16_load(const volatile unsigned short *p, int o) { at_load((const void *)p, 2, o); return *p; }
void __tsan_atomic16_store(volatile unsigned short *p, unsigned short v, int o) { at_store((void *)p, 2, o); *p = v; at_stored(o); }
unsigned short __tsan_atomic16_exchange(volatile unsigned short *p, unsigned short v, int) { at_rmw((void *)p, 2); unsigned short r = *p; *p = v; return r; }
unsigned short __tsan_atomic16_fetch_add(volatile unsigned short *p, unsigned short v, int) { at_rmw((void *)p, 2); unsigned short r = *p; *p = (unsigned short)(r + v); return r; }
unsigned short __tsan_atomic16_fetch_sub(volatile unsigned short *p, unsigned short v, int) { at_rmw((void *)p, 2); unsigned short r = *p; *p = (unsigned short)(r - v); return r; }
unsigned short __tsan_atomic16_fetch_and(volatile unsigned short *p, unsigned short v, int) { at_rmw((void *)p, 2); unsigned short r = *p; *p = (unsigned short)(r & v); return r; }
unsigned short __tsan_atomic16_fetch_or(volatile unsigned short *p, unsigned short v, int) { at_rmw((void *)p, 2); unsigned short r = *p; *p = (unsigned short)(r | v); return r; }
unsigned short __tsan_atomic16_fetch_xor(volatile unsigned short *p, unsigned short v, int) { at_rmw((void *)p, 2); unsigned short r = *p; *p = (unsigned short)(r ^ v); return r; }
unsigned short __tsan_atomic16_fetch_nand(volatile unsigned short *p, unsigned short v, int) { at_rmw((void *)p, 2); unsigned short r = *p; *p = (unsigned short)(~(r & v)); return r; }
int __tsan_atomic16_compare_exchange_strong(volatile unsigned short *p, unsigned short *c, unsigned short v, int, int) { at_rmw((void *)p, 2); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
int __tsan_atomic16_compare_exchange_weak(volatile unsigned short *p, unsigned short *c, unsigned short v, int, int) { at_rmw((void *)p, 2); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
unsigned short __tsan_atomic16_compare_exchange_val(volatile unsigned short *p, unsigned short c, unsigned short v, int, int) { at_rmw((void *)p, 2); unsigned short r = *p; if (r == c) *p = v; return r; }

unsigned __tsan_atomic32_load(const volatile unsigned *p, int o) { at_load((const void *)p, 4, o); return *p; }
void __tsan_atomic32_store(volatile unsigned *p, unsigned v, int o) { at_store((void *)p, 4, o); *p = v; at_stored(o); }
unsigned __tsan_atomic32_exchange(volatile unsigned *p, unsigned v, int) { at_rmw((void *)p, 4); unsigned r = *p; *p = v; return r; }
unsigned __tsan_atomic32_fetch_add(volatile unsigned *p, unsigned v, int) { at_rmw((void *)p, 4); unsigned r = *p; *p = (unsigned)(r + v); return r; }
unsigned __tsan_atomic32_fetch_sub(volatile unsigned *p, unsigned v, int) { at_rmw((void *)p, 4); unsigned r = *p; *p = (unsigned)(r - v); return r; }
unsigned __tsan_atomic32_fetch_and(volatile unsigned *p, unsigned v, int) { at_rmw((void *)p, 4); unsigned r = *p; *p = (unsigned)(r & v); return r; }
unsigned __tsan_atomic32_fetch_or(volatile unsigned *p, unsigned v, int) { at_rmw((void *)p, 4); unsigned r = *p; *p = (unsigned)(r | v); return r; }
unsigned __tsan_atomic32_fetch_xor(volatile unsigned *p, unsigned v, int) { at_rmw((void *)p, 4); unsigned r = *p; *p = (unsigned)(r ^ v); return r; }
unsigned __tsan_atomic32_fetch_nand(volatile unsigned *p, unsigned v, int) { at_rmw((void *)p, 4); unsigned r = *p; *p = (unsigned)(~(r & v)); return r; }
int __tsan_atomic32_compare_exchange_strong(volatile unsigned *p, unsigned *c, unsigned v, int, int) { at_rmw((void *)p, 4); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
int __tsan_atomic32_compare_exchange_weak(volatile unsigned *p, unsigned *c, unsigned v, int, int) { at_rmw((void *)p, 4); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
unsigned __tsan_atomic32_compare_exchange_val(volatile unsigned *p, unsigned c, unsigned v, int, int) { at_rmw((void *)p, 4); unsigned r = *p; if (r == c) *p = v; return r; }

unsigned long __tsan_atomic64_load(const volatile unsigned long *p, int o) { at_load((const void *)p, 8, o); return *p; }
void __tsan_atomic64_store(volatile unsigned long *p, unsigned long v, int o) { at_store((void *)p, 8, o); *p = v; at_stored(o); }
unsigned long __tsan_atomic64_exchange(volatile unsigned long *p, unsigned long v, int) { at_rmw((void *)p, 8); unsigned long r = *p; *p = v; return r; }
unsigned long __tsan_atomic64_fetch_add(volatile unsigned long *p, unsigned long v, int) { at_rmw((void *)p, 8); unsigned long r = *p; *p = (unsigned long)(r + v); return r; }
unsigned long __tsan_atomic64_fetch_sub(volatile unsigned long *p, unsigned long v, int) { at_rmw((void *)p, 8); unsigned long r = *p; *p = (unsigned long)(r - v); return r; }
unsigned long __tsan_atomic64_fetch_and(volatile unsigned long *p, unsigned long v, int) { at_rmw((void *)p, 8); unsigned long r = *p; *p = (unsigned long)(r & v); return r; }
unsigned long __tsan_atomic64_fetch_or(volatile unsigned long *p, unsigned long v, int) { at_rmw((void *)p, 8); unsigned long r = *p; *p = (unsigned long)(r | v); return r; }
unsigned long __tsan_atomic64_fetch_xor(volatile unsigned long *p, unsigned long v, int) { at_rmw((void *)p, 8); unsigned long r = *p; *p = (unsigned long)(r ^ v); return r; }
unsigned long __tsan_atomic64_fetch_nand(volatile unsigned long *p, unsigned long v, int) { at_rmw((void *)p, 8); unsigned long r = *p; *p = (unsigned long)(~(r & v)); return r; }
int __tsan_atomic64_compare_exchange_strong(volatile unsigned long *p, unsigned long *c, unsigned long v, int, int) { at_rmw((void *)p, 8); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
int __tsan_atomic64_compare_exchange_weak(volatile unsigned long *p, unsigned long *c, unsigned long v, int, int) { at_rmw((void *)p, 8); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
unsigned long __tsan_atomic64_compare_exchange_val(volatile unsigned long *p, unsigned long c, unsigned long v, int, int) { at_rmw((void *)p, 8); unsigned long r = *p; if (r == c) *p = v; return r; }

unsigned __int128 __tsan_atomic128_load(const volatile unsigned __int128 *p, int o) { at_load((const void *)p, 16, o); return *p; }
void __tsan_atomic128_store(volatile unsigned __int128 *p, unsigned __int128 v, int o) { at_store((void *)p, 16, o); *p = v; at_stored(o); }
unsigned __int128 __tsan_atomic128_exchange(volatile unsigned __int128 *p, unsigned __int128 v, int) { at_rmw((void *)p, 16); unsigned __int128 r = *p; *p = v; return r; }
unsigned __int128 __tsan_atomic128_fetch_add(volatile unsigned __int128 *p, unsigned __int128 v, int) { at_rmw((void *)p, 16); unsigned __int128 r = *p; *p = (unsigned __int128)(r + v); return r; }
unsigned __int128 __tsan_atomic128_fetch_sub(volatile unsigned __int128 *p, unsigned __int128 v, int) { at_rmw((void *)p, 16); unsigned __int128 r = *p; *p = (unsigned __int128)(r - v); return r; }
unsigned __int128 __tsan_atomic128_fetch_and(volatile unsigned __int128 *p, unsigned __int128 v, int) { at_rmw((void *)p, 16); unsigned __int128 r = *p; *p = (unsigned __int128)(r & v); return r; }
unsigned __int128 __tsan_atomic128_fetch_or(volatile unsigned __int128 *p, unsigned __int128 v, int) { at_rmw((void *)p, 16); unsigned __int128 r = *p; *p = (unsigned __int128)(r | v); return r; }
unsigned __int128 __tsan_atomic128_fetch_xor(volatile unsigned __int128 *p, unsigned __int128 v, int) { at_rmw((void *)p, 16); unsigned __int128 r = *p; *p = (unsigned __int128)(r ^ v); return r; }
unsigned __int128 __tsan_atomic128_fetch_nand(volatile unsigned __int128 *p, unsigned __int128 v, int) { at_rmw((void *)p, 16); unsigned __int128 r = *p; *p = (unsigned __int128)(~(r & v)); return r; }
int __tsan_atomic128_compare_exchange_strong(volatile unsigned __int128 *p, unsigned __int128 *c, unsigned __int128 v, int, int) { at_rmw((void *)p, 16); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
int __tsan_atomic128_compare_exchange_weak(volatile unsigned __int128 *p, unsigned __int128 *c, unsigned __int128 v, int, int) { at_rmw((void *)p, 16); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
unsigned __int128 __tsan_atomic128_compare_exchange_val(volatile unsigned __int128 *p, unsigned __int128 c, unsigned __int128 v, int, int) { at_rmw((void *)p, 16); unsigned __int128 r = *p; if (r == c) *p = v; return r; }

void __tsan_atomic_thread_fence(int o) {
  if (g_incode <= 0) return;
  sim_thr_event((int)Ev::sync);
  if (g_mm.fence) g_mm.fence(o);
}
void __tsan_atomic_signal_fence(int) { if (g_incode > 0 && g_mm.fence) g_mm.fence(-1); }
// inline assembly statements of the code under test, replaced by their text
void sim_barrier(const char *text) {
  if (g_incode <= 0) return;
  sim_thr_event((int)Ev::sync);
  if (!g_mm.fence) return;
  if (!strstr(text, "\"memory\"")) return;                  // the compiler may move accesses across it
  bool full = strstr(text, "mfence") || strstr(text, "lock") || strstr(text, "xchg") || strstr(text, "dmb") || strstr(text, "sync") || strstr(text, "mf");
  g_mm.fence(full ? 5 : -1);
}
}
