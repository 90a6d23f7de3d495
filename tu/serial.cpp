/* instantiation unit: nothing but calls of the real functions */
#include "streams.hpp"
#include <stdint.h>
#include <string.h>
#include <vector>
#include <list>
#include <string>
#include <cybozu/serializer.hpp>
#include <cybozu/string.hpp>
#define F(name, type) \
	void w_save_##name(Out& os, type x) { cybozu::save(os, x); } \
	void w_load_##name(type& x, In& is) { cybozu::load(x, is); }
extern "C" {
F(bool, bool) F(char, char) F(short, short) F(uchar, unsigned char) F(ushort, unsigned short) F(wchar, wchar_t)
F(int, int) F(long, long) F(ll, long long) F(uint, unsigned int) F(ulong, unsigned long) F(ull, unsigned long long)
void w_save_str(Out& os, const std::string& x) { cybozu::save(os, x); }
void w_load_str(std::string& x, In& is) { cybozu::load(x, is); }
void w_save_cstr(Out& os, const char *x) { cybozu::save(os, x); }
void w_save_String(Out& os, const cybozu::String& x) { cybozu::savePodVec(os, x); }
void w_load_String(cybozu::String& x, In& is) { cybozu::loadPodVec(x, is); }
void w_save_pod4(Out& os, const std::vector<uint32_t>& x) { cybozu::savePodVec(os, x); }
void w_load_pod4(std::vector<uint32_t>& x, In& is) { cybozu::loadPodVec(x, is); }
void w_save_pod8(Out& os, const std::vector<uint64_t>& x) { cybozu::savePodVec(os, x); }
void w_load_pod8(std::vector<uint64_t>& x, In& is) { cybozu::loadPodVec(x, is); }
void w_save_vint(Out& os, const std::vector<int>& x) { cybozu::save(os, x); }
void w_load_vint(std::vector<int>& x, In& is) { cybozu::load(x, is); }
void w_save_vull(Out& os, const std::vector<uint64_t>& x) { cybozu::save(os, x); }
void w_load_vull(std::vector<uint64_t>& x, In& is) { cybozu::load(x, is); }
void w_save_vshort(Out& os, const std::vector<unsigned short>& x) { cybozu::save(os, x); }
void w_load_vshort(std::vector<unsigned short>& x, In& is) { cybozu::load(x, is); }
void w_save_range(Out& os, const uint16_t *p, size_t n) { cybozu::saveRange(os, p, n); }
void w_load_range(uint16_t *p, size_t n, In& is) { cybozu::loadRange(p, n, is); }
}
