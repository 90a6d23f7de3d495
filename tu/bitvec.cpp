#include <cybozu/bitvector.hpp>
#define I(T, N) \
typedef cybozu::BitVectorT<T> BV##N; \
extern "C" { \
void bv##N##_init(BV##N *v, const T *p, size_t n) { v->init(p, n); } \
void bv##N##_resize(BV##N *v, size_t n) { v->resize(n); } \
bool bv##N##_get(const BV##N *v, size_t i) { return v->get(i); } \
void bv##N##_set(BV##N *v, size_t i) { v->set(i); } \
void bv##N##_reset(BV##N *v, size_t i) { v->reset(i); } \
void bv##N##_setb(BV##N *v, size_t i, bool b) { v->set(i, b); } \
void bv##N##_clear(BV##N *v) { v->clear(); } \
size_t bv##N##_size(const BV##N *v) { return v->size(); } \
void bv##N##_appendp(BV##N *v, const T *p, size_t n) { v->append(p, n); } \
void bv##N##_appendi(BV##N *v, uint64_t x, size_t n) { v->append(x, n); } \
void bv##N##_appendv(BV##N *v, const BV##N *w) { v->append(*w); } \
void bv##N##_extractp(const BV##N *v, T *d, size_t pos, size_t n) { v->extract(d, pos, n); } \
T bv##N##_extracti(const BV##N *v, size_t pos, size_t n) { return v->extract(pos, n); } \
void bv##N##_extractv(const BV##N *v, BV##N *d, size_t pos, size_t n) { v->extract(*d, pos, n); } \
bool bv##N##_eq(const BV##N *v, const BV##N *w) { return *v == *w; } \
bool bv##N##_ne(const BV##N *v, const BV##N *w) { return *v != *w; } \
void bv##N##_copybit(T *d, const T *s, size_t n) { cybozu::CopyBit<T>(d, s, n); } \
T bv##N##_shl(T *d, const T *s, size_t n, size_t sh, T ext) { return cybozu::ShiftLeftBit<T>(d, s, n, sh, ext); } \
}
I(uint8_t, 8)
I(uint32_t, 32)
I(uint64_t, 64)
