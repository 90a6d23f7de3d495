/* instantiation unit: nothing but calls of the real functions */
#include <cybozu/endian.hpp>
#include <cybozu/bit_operation.hpp>
#ifdef T_
extern "C" int w_bsf(T_ x) { return cybozu::bsf(x); }
extern "C" int w_bsr(T_ x) { return cybozu::bsr(x); }
#endif
#ifdef P_
extern "C" uint32_t w_popcnt(P_ x) { return cybozu::popcnt<P_>(x); }
#endif
#ifdef M_
extern "C" uint64_t w_mask(M_ x) { return cybozu::makeBitMask64(x); }
#endif
#ifdef E_
extern "C" uint16_t w_get16le(const void *p) { return cybozu::Get16bitAsLE(p); }
extern "C" uint32_t w_get32le(const void *p) { return cybozu::Get32bitAsLE(p); }
extern "C" uint64_t w_get64le(const void *p) { return cybozu::Get64bitAsLE(p); }
extern "C" uint16_t w_get16be(const void *p) { return cybozu::Get16bitAsBE(p); }
extern "C" uint32_t w_get32be(const void *p) { return cybozu::Get32bitAsBE(p); }
extern "C" uint64_t w_get64be(const void *p) { return cybozu::Get64bitAsBE(p); }
extern "C" void w_set16le(void *p, uint16_t x) { cybozu::Set16bitAsLE(p, x); }
extern "C" void w_set32le(void *p, uint32_t x) { cybozu::Set32bitAsLE(p, x); }
extern "C" void w_set64le(void *p, uint64_t x) { cybozu::Set64bitAsLE(p, x); }
extern "C" void w_set16be(void *p, uint16_t x) { cybozu::Set16bitAsBE(p, x); }
extern "C" void w_set32be(void *p, uint32_t x) { cybozu::Set32bitAsBE(p, x); }
extern "C" void w_set64be(void *p, uint64_t x) { cybozu::Set64bitAsBE(p, x); }
extern "C" uint16_t w_swap16(uint16_t x) { return cybozu::byteSwap(x); }
extern "C" uint32_t w_swap32(uint32_t x) { return cybozu::byteSwap(x); }
extern "C" uint64_t w_swap64(uint64_t x) { return cybozu::byteSwap(x); }
#endif
