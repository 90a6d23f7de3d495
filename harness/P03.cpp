#include <cybozu/endian.hpp>
#include <cybozu/bit_operation.hpp>
#include "h.hpp"
#define F(m) return c.fn + ": " + std::string(m)
template<class T> std::string scan(const Case& c, bool rev)
{
	T x = (T)c.i("x");
	if (x == 0) return "skip";
	typedef unsigned long long U;
	U u = (U)x & (sizeof(T) == 8 ? ~0ull : ((1ull << (sizeof(T) * 8 % 64)) - 1));
	int e = -1;
	for (int i = 0; i < (int)sizeof(T) * 8; i++) if ((u >> i) & 1) { if (rev) e = i; else if (e < 0) e = i; }
	int g = rev ? cybozu::bsr(x) : cybozu::bsf(x);
	if (g != e) F("x=" + std::to_string(u) + " gives " + std::to_string(g) + " expected " + std::to_string(e));
	return "";
}
std::string check(const Case& c)
{
	uint64_t x = c.i("x");
	const std::string& f = c.fn;
	if (f.compare(0, 2, "bs") == 0) {
		bool rev = f[2] == 'r';
		std::string r;
		switch (atoi(f.c_str() + 4)) {
		case 8: return scan<unsigned char>(c, rev);
		case 16: return scan<unsigned short>(c, rev);
		case 32: r = scan<unsigned int>(c, rev); return r.empty() ? scan<int>(c, rev) : r;
		default: r = scan<unsigned long>(c, rev); if (r.empty()) r = scan<unsigned long long>(c, rev); return r.empty() ? scan<long long>(c, rev) : r;
		}
	}
	if (f.compare(0, 6, "popcnt") == 0) {
		int w = atoi(f.c_str() + 7);
		uint32_t e = 0;
		for (int i = 0; i < w; i++) e += (x >> i) & 1;
		uint32_t g = w == 32 ? cybozu::popcnt<uint32_t>((uint32_t)x) : cybozu::popcnt<uint64_t>(x);
		if (g != e) F(std::to_string(x) + " gives " + std::to_string(g));
		return "";
	}
	if (f.compare(0, 4, "mask") == 0) {
		x %= 64;
		uint64_t e = 0;
		for (uint64_t i = 0; i < x; i++) e |= 1ull << i;
		if (cybozu::makeBitMask64((int)x) != e || cybozu::makeBitMask64((uint32_t)x) != e || cybozu::makeBitMask64((size_t)x) != e) F(std::to_string(x));
		return "";
	}
	int n = atoi(f.c_str() + (f[0] == 's' && f[1] == 'w' ? 4 : 3)) / 8;
	bool be = f[f.size() - 2] == 'b';
	if (f.compare(0, 4, "swap") == 0) {
		uint64_t e = 0, g;
		for (int i = 0; i < n; i++) e |= ((x >> (8 * i)) & 255) << (8 * (n - 1 - i));
		if (n == 2) g = cybozu::byteSwap((uint16_t)x); else if (n == 4) g = cybozu::byteSwap((uint32_t)x); else g = cybozu::byteSwap(x);
		if (g != e) F("wrong");
		return "";
	}
	if (f[0] == 'g') {
		std::string p = c.b("p");
		p.resize(n);
		HeapBuf b(p);
		uint64_t e = 0, g;
		for (int i = 0; i < n; i++) e |= (uint64_t)(uint8_t)p[i] << (8 * (be ? n - 1 - i : i));
		if (n == 2) g = be ? cybozu::Get16bitAsBE(b.p) : cybozu::Get16bitAsLE(b.p);
		else if (n == 4) g = be ? cybozu::Get32bitAsBE(b.p) : cybozu::Get32bitAsLE(b.p);
		else g = be ? cybozu::Get64bitAsBE(b.p) : cybozu::Get64bitAsLE(b.p);
		if (g != e) F("bytes " + hexs(p) + " give " + std::to_string(g));
		return "";
	}
	std::string e(n, 0);
	for (int i = 0; i < n; i++) e[i] = (char)(x >> (8 * (be ? n - 1 - i : i)));
	HeapBuf b((size_t)n);
	if (n == 2) be ? cybozu::Set16bitAsBE(b.p, (uint16_t)x) : cybozu::Set16bitAsLE(b.p, (uint16_t)x);
	else if (n == 4) be ? cybozu::Set32bitAsBE(b.p, (uint32_t)x) : cybozu::Set32bitAsLE(b.p, (uint32_t)x);
	else be ? cybozu::Set64bitAsBE(b.p, x) : cybozu::Set64bitAsLE(b.p, x);
	if (b.str() != e) F("writes " + hexs(b.str()) + " expected " + hexs(e));
	return "";
}
void gen(Rng& r, const std::string& fn, Case& c) { c.n["x"] = r.val(); c.s["p"] = r.bytes(8); }
