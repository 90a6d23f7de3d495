/* instantiation unit: nothing but calls of the real functions */
#include <cybozu/atoi.hpp>
#define W(fn, T) \
extern "C" T w_##fn##_b(bool *b, const char *p, size_t n) { return cybozu::fn(b, p, n); } \
extern "C" T w_##fn##_x(const char *p, size_t n) { return cybozu::fn(p, n); } \
extern "C" T w_##fn##_z(bool *b, const char *p) { return cybozu::fn(b, p); } \
extern "C" T w_##fn##_zx(const char *p) { return cybozu::fn(p); }
#ifdef TYPE
W(atoi, TYPE)
#endif
#ifdef HTYPE
W(hextoi, HTYPE)
#endif
