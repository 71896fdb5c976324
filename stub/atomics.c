#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
#include <libmy/atomic.h>
#include <libmy/atomic_64.h>
#include <libmy/atomic_ptr.h>
#include "atomics.h"
const unsigned a32_size = sizeof(atomic_t), a64_size = sizeof(atomic64_t), ap_size = sizeof(atomic_ptr_t);
void a32_init(void *v, int x) { atomic_t t = ATOMIC_INIT(x); *(atomic_t *)v = t; }
int a32_read(void *v) { return atomic_read((atomic_t *)v); }
void a32_set(void *v, int x) { atomic_set((atomic_t *)v, x); }
void a32_add(int i, void *v) { atomic_add(i, v); }
void a32_sub(int i, void *v) { atomic_sub(i, v); }
int a32_zero(void *v) { return atomic_zero(v); }
int a32_sub_and_test(int i, void *v) { return atomic_sub_and_test(i, v); }
void a32_inc(void *v) { atomic_inc(v); }
void a32_dec(void *v) { atomic_dec(v); }
int a32_dec_and_test(void *v) { return atomic_dec_and_test(v); }
int a32_inc_and_test(void *v) { return atomic_inc_and_test(v); }
int a32_add_negative(int i, void *v) { return atomic_add_negative(i, v); }
void a64_init(void *v, int64_t x) { atomic64_t t = ATOMIC64_INIT(x); *(atomic64_t *)v = t; }
int64_t a64_read(void *v) { return atomic64_read((atomic64_t *)v); }
void a64_set(void *v, int64_t x) { atomic64_set((atomic64_t *)v, x); }
void a64_add(int64_t i, void *v) { atomic64_add(i, v); }
void a64_sub(int64_t i, void *v) { atomic64_sub(i, v); }
int64_t a64_zero(void *v) { return atomic64_zero(v); }
int a64_sub_and_test(int64_t i, void *v) { return atomic64_sub_and_test(i, v); }
void a64_inc(void *v) { atomic64_inc(v); }
void a64_dec(void *v) { atomic64_dec(v); }
int a64_dec_and_test(void *v) { return atomic64_dec_and_test(v); }
int a64_inc_and_test(void *v) { return atomic64_inc_and_test(v); }
int a64_add_negative(int64_t i, void *v) { return atomic64_add_negative(i, v); }
void ap_init(void *v, void *x) { ((atomic_ptr_t *)v)->ptr = x; }
void *ap_get(void *v) { return atomic_ptr_get(v); }
int ap_set(void *v, void *x) { return atomic_ptr_set(v, x); }
