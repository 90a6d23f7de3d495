#pragma once
/* abstract streams: the verified code sees only their contracts */
#include <stddef.h>
struct In { size_t readSome(void *buf, size_t size); };
struct Out { void write(const void *buf, size_t size); void write(bool *pb, const void *buf, size_t size); };
