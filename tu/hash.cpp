/* instantiation unit: nothing but calls of the real functions */
#include <cybozu/hash.hpp>
#include <cybozu/siphash.hpp>
#ifdef T_
extern "C" uint32_t w_h32r(const T_ *b, const T_ *e, uint32_t v) { return cybozu::hash32(b, e, v); }
extern "C" uint64_t w_h64r(const T_ *b, const T_ *e, uint64_t v) { return cybozu::hash64(b, e, v); }
extern "C" uint32_t w_h32(const T_ *b, size_t n, uint32_t v) { return cybozu::hash32(b, n, v); }
extern "C" uint64_t w_h64(const T_ *b, size_t n, uint64_t v) { return cybozu::hash64(b, n, v); }
extern "C" uint32_t w_h32d(const T_ *b, size_t n) { return cybozu::hash32(b, n); }
extern "C" uint64_t w_h64d(const T_ *b, size_t n) { return cybozu::hash64(b, n); }
#endif
#ifdef SIP
extern "C" uint64_t w_sip(const void *p, size_t n, uint64_t k0, uint64_t k1) { return cybozu::siphash24(p, n, k0, k1); }
extern "C" uint64_t w_sipd(const void *p, size_t n) { return cybozu::siphash24(p, n); }
#endif
