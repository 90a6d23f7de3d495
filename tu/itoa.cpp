/* instantiation unit: nothing but calls of the real functions */
#include <cybozu/itoa.hpp>
#ifdef ITYPE
extern "C" void w_itoa(std::string& out, ITYPE x) { cybozu::itoa(out, x); }
extern "C" void w_itoa_r(std::string *out, ITYPE x) { new(out) std::string(cybozu::itoa(x)); }
extern "C" void w_pad(std::string *out, ITYPE x, size_t len, char c) { new(out) std::string(cybozu::itoaWithZero(x, len, c)); }
#endif
#ifdef UTYPE
extern "C" void w_hex(std::string& out, UTYPE x, bool up, bool wz) { cybozu::itohex(out, x, up, wz); }
extern "C" void w_hex_r(std::string *out, UTYPE x, bool up, bool wz) { new(out) std::string(cybozu::itohex(x, up, wz)); }
extern "C" void w_bin(std::string& out, UTYPE x, bool wz) { cybozu::itobin(out, x, wz); }
extern "C" void w_bin_r(std::string *out, UTYPE x, bool wz) { new(out) std::string(cybozu::itobin(x, wz)); }
extern "C" void w_hex_c(char *out, size_t len, UTYPE x, bool up) { cybozu::itohex(out, len, x, up); }
extern "C" void w_bin_c(char *out, size_t len, UTYPE x) { cybozu::itobin(out, len, x); }
#endif
#ifdef UINT
extern "C" size_t w_udec(char *buf, size_t len, UINT x) { return cybozu::itoa_local::uintToDec(buf, len, x); }
extern "C" size_t w_uhex(char *buf, size_t len, UINT x, bool up) { return cybozu::itoa_local::uintToHex(buf, len, x, up); }
extern "C" size_t w_ubin(char *buf, size_t len, UINT x) { return cybozu::itoa_local::uintToBin(buf, len, x); }
#endif
#ifdef STYPE
extern "C" size_t w_sdec(char *buf, size_t len, STYPE x) { return cybozu::itoa_local::intToDec(buf, len, x); }
#endif
