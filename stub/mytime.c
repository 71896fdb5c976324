#include <libmy/my_time.h>
#include <libmy/read_bytes.h>
#include "mytime.h"
void mt_add(const struct timespec *a, struct timespec *b) { my_timespec_add(a, b); }
void mt_sub(const struct timespec *a, struct timespec *b) { my_timespec_sub(a, b); }
double mt_to_double(const struct timespec *t) { return my_timespec_to_double(t); }
void mt_from_double(double s, struct timespec *t) { my_timespec_from_double(s, t); }
void mt_nanosleep(const struct timespec *t) { my_nanosleep(t); }
bool mt_read_bytes(int fd, uint8_t *buf, size_t n) { return read_bytes(fd, buf, n); }
