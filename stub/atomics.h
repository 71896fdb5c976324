// Callable forms of the static inline operations of libmy/atomic*.h.
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void a32_init(void *v, int x); int a32_read(void *v); void a32_set(void *v, int x);
void a32_add(int i, void *v); void a32_sub(int i, void *v); int a32_zero(void *v);
int a32_sub_and_test(int i, void *v); void a32_inc(void *v); void a32_dec(void *v);
int a32_dec_and_test(void *v); int a32_inc_and_test(void *v); int a32_add_negative(int i, void *v);
void a64_init(void *v, int64_t x); int64_t a64_read(void *v); void a64_set(void *v, int64_t x);
void a64_add(int64_t i, void *v); void a64_sub(int64_t i, void *v); int64_t a64_zero(void *v);
int a64_sub_and_test(int64_t i, void *v); void a64_inc(void *v); void a64_dec(void *v);
int a64_dec_and_test(void *v); int a64_inc_and_test(void *v); int a64_add_negative(int64_t i, void *v);
void ap_init(void *v, void *x); void *ap_get(void *v); int ap_set(void *v, void *x);
extern const unsigned a32_size, a64_size, ap_size;
#ifdef __cplusplus
}
#endif
