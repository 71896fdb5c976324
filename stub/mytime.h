// Callable forms of the static inline functions of libmy/my_time.h and libmy/read_bytes.h.
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
void mt_add(const struct timespec *a, struct timespec *b);
void mt_sub(const struct timespec *a, struct timespec *b);
double mt_to_double(const struct timespec *t);
void mt_from_double(double s, struct timespec *t);
void mt_nanosleep(const struct timespec *t);
bool mt_read_bytes(int fd, uint8_t *buf, size_t n);
#ifdef __cplusplus
}
#endif
