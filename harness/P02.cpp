#include <cybozu/itoa.hpp>
#include <limits>
#include "h.hpp"

static std::string numeral(unsigned __int128 v, int base, bool up)
{
	std::string s;
	do { s.insert(s.begin(), (up ? "0123456789ABCDEF" : "0123456789abcdef")[(int)(v % base)]); v /= base; } while (v);
	return s;
}
#define EXPECT(what, got, want) do { std::string g_ = (got), w_ = (want); if (g_ != w_) return std::string(what) + " gives '" + g_ + "' expected '" + w_ + "'"; } while (0)
template<class T>
std::string dec(const Case& c)
{
	T x = (T)c.i("x");
	bool neg = x < 0;
	unsigned __int128 m = neg ? (unsigned __int128)(-(__int128)x) : (unsigned __int128)x;
	std::string d = numeral(m, 10, false), e = (neg ? "-" : "") + d;
	std::string o = "old contents";
	cybozu::itoa(o, x);
	EXPECT("itoa(out)", o, e);
	EXPECT("itoa", cybozu::itoa(x), e);
	size_t len = c.i("len");
	if (len > 100000) len = 1000 + len % 300;
	char ch = (char)c.i("c", '0');
	std::string p = e;
	if (len > e.size()) p = (neg ? "-" : "") + std::string(len - e.size(), ch) + d;
	EXPECT("itoaWithZero", cybozu::itoaWithZero(x, len, ch), p);
	return "";
}
#ifdef VF_INTERNAL
template<class F>
std::string buf(const char *nm, const std::string& e, size_t len, F f)
{
	for (size_t n : { len, e.size(), e.size() ? e.size() - 1 : 0, e.size() + 1 }) {
		HeapBuf b(n);
		size_t r = f(b.p, n);
		size_t w = n >= e.size() ? e.size() : 0;
		if (r != w) return std::string(nm) + " returns " + std::to_string(r) + " expected " + std::to_string(w) + " with buffer " + std::to_string(n);
		if (w) EXPECT(nm, std::string(b.p + n - w, w), e);
	}
	return "";
}
#endif
template<class T>
std::string udec(const Case& c)
{
#ifdef VF_INTERNAL
	T x = (T)c.i("x");
	return buf("uintToDec", numeral(x, 10, false), c.i("len") % 300, [&](char *p, size_t n) { return cybozu::itoa_local::uintToDec(p, n, x); });
#else
	return "";
#endif
}
template<class T>
std::string sdec(const Case& c)
{
#ifdef VF_INTERNAL
	T x = (T)c.i("x");
	if (sizeof(T) < 8 && x == std::numeric_limits<T>::min()) return "";
	unsigned __int128 m = x < 0 ? (unsigned __int128)(-(__int128)x) : (unsigned __int128)x;
	return buf("intToDec", (x < 0 ? "-" : "") + numeral(m, 10, false), c.i("len") % 300, [&](char *p, size_t n) { return cybozu::itoa_local::intToDec(p, n, x); });
#else
	return "";
#endif
}
template<class T>
std::string hexbin(const Case& c, bool hex)
{
	T x = (T)c.i("x");
	bool up = c.i("up"), wz = c.i("wz");
	const int base = hex ? 16 : 2, full = sizeof(T) * (hex ? 2 : 8);
	std::string d = numeral(x, base, up), z = std::string(full - d.size(), '0') + d;
	std::string o = "old contents";
	if (hex) cybozu::itohex(o, x, up, wz); else cybozu::itobin(o, x, wz);
	EXPECT("string form", o, wz ? z : d);
	EXPECT("return form", hex ? cybozu::itohex(x, up, wz) : cybozu::itobin(x, wz), wz ? z : d);
	size_t len = c.i("len");
	if (len > 100000) len = 1000 + len % 300;
	std::string e = len >= d.size() ? std::string(len - d.size(), '0') + d : d.substr(d.size() - len);
	HeapBuf b(len);
	if (hex) cybozu::itohex(b.p, len, x, up); else cybozu::itobin(b.p, len, x);
	EXPECT("buffer form", b.str(), e);
#ifdef VF_INTERNAL
	if (hex) return buf("uintToHex", d, len, [&](char *p, size_t n) { return cybozu::itoa_local::uintToHex(p, n, x, up); });
	return buf("uintToBin", d, len, [&](char *p, size_t n) { return cybozu::itoa_local::uintToBin(p, n, x); });
#endif
	return "";
}
#define T_(e) { std::string r_ = (e); if (!r_.empty()) return c.fn + ": " + r_; }
std::string check(const Case& c)
{
	bool hex = c.fn.compare(0, 3, "hex") == 0;
	if (c.fn.compare(0, 3, "dec") == 0) {
		if (c.fn == "dec/8/0") { T_(udec<unsigned char>(c)) }
		else if (c.fn == "dec/16/0") { T_(udec<unsigned short>(c)) }
		else if (c.fn == "dec/32/0") { T_(dec<unsigned int>(c)) T_(udec<unsigned int>(c)) }
		else if (c.fn == "dec/64/0") { T_(dec<unsigned long>(c)) T_(dec<unsigned long long>(c)) T_(udec<unsigned long>(c)) T_(udec<unsigned long long>(c)) }
		else if (c.fn == "dec/32/1") { T_(dec<int>(c)) T_(sdec<int>(c)) }
		else { T_(dec<long>(c)) T_(dec<long long>(c)) T_(sdec<long long>(c)) }
		return "";
	}
	switch (atoi(c.fn.c_str() + 4)) {
	case 8: T_(hexbin<unsigned char>(c, hex)) break;
	case 16: T_(hexbin<unsigned short>(c, hex)) break;
	case 32: T_(hexbin<unsigned int>(c, hex)) break;
	default: T_(hexbin<unsigned long>(c, hex)) T_(hexbin<unsigned long long>(c, hex)) break;
	}
	return "";
}
void gen(Rng& r, const std::string& fn, Case& c)
{
	c.n["x"] = r.val();
	c.n["len"] = r.len(1000);
	c.n["c"] = r.coin() ? '0' : r.below(256);
	c.n["up"] = r.below(2);
	c.n["wz"] = r.below(2);
}
