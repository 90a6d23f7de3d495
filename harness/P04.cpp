#include <cybozu/hash.hpp>
#include <cybozu/siphash.hpp>
#include "h.hpp"
#define F(m) return c.fn + ": " + std::string(m)
static uint64_t rl(uint64_t x, int n) { return (x << n) | (x >> (64 - n)); }
static void sr(uint64_t *v)
{
	v[0] += v[1]; v[1] = rl(v[1], 13); v[1] ^= v[0]; v[0] = rl(v[0], 32);
	v[2] += v[3]; v[3] = rl(v[3], 16); v[3] ^= v[2];
	v[0] += v[3]; v[3] = rl(v[3], 21); v[3] ^= v[0];
	v[2] += v[1]; v[1] = rl(v[1], 17); v[1] ^= v[2]; v[2] = rl(v[2], 32);
}
static uint64_t sip(const std::string& p, uint64_t k0, uint64_t k1)
{
	uint64_t v[4] = { k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull };
	std::string q = p;
	while (q.size() % 8 != 7) q += '\0';
	q += (char)p.size();
	for (size_t i = 0; i < q.size(); i += 8) {
		uint64_t m = 0;
		for (int j = 0; j < 8; j++) m |= (uint64_t)(uint8_t)q[i + j] << (8 * j);
		v[3] ^= m; sr(v); sr(v); v[0] ^= m;
	}
	v[2] ^= 255; sr(v); sr(v); sr(v); sr(v);
	return v[0] ^ v[1] ^ v[2] ^ v[3];
}
template<class T> std::string fnv(const Case& c, int w)
{
	const std::string& p = c.b("p");
	size_t n = p.size() / sizeof(T);
	HeapBuf b(p.substr(0, n * sizeof(T)));
	const T *q = (const T*)b.p;
	uint64_t v0 = c.i("v");
	for (int d = 0; d < 2; d++) {
		uint64_t v = d ? 0 : v0;
		if (w == 32) {
			uint32_t e = (uint32_t)v;
			if (e == 0) e = 2166136261u;
			for (size_t i = 0; i < n; i++) { T x; memcpy(&x, b.p + i * sizeof(T), sizeof(T)); e = (e ^ (uint32_t)x) * 16777619u; }
			if (cybozu::hash32(q, n, (uint32_t)v) != e || cybozu::hash32(q, q + n, (uint32_t)v) != e) F("differs from FNV-1a");
			if (d && cybozu::hash32(q, n) != e) F("default basis");
		} else {
			uint64_t e = v;
			if (e == 0) e = 14695981039346656037ull;
			for (size_t i = 0; i < n; i++) { T x; memcpy(&x, b.p + i * sizeof(T), sizeof(T)); e = (e ^ (uint64_t)x) * 1099511628211ull; }
			e ^= e >> 32;
			if (cybozu::hash64(q, n, v) != e || cybozu::hash64(q, q + n, v) != e) F("differs from FNV-1a");
			if (d && cybozu::hash64(q, n) != e) F("default basis");
		}
	}
	return "";
}
std::string check(const Case& c)
{
	if (c.fn == "sip") {
		HeapBuf b(c.b("p"));
		if (cybozu::siphash24(b.p, b.n, c.i("k0"), c.i("k1")) != sip(c.b("p"), c.i("k0"), c.i("k1"))) F("differs from SipHash-2-4");
		if (cybozu::siphash24(b.p, b.n) != sip(c.b("p"), 0x0706050403020100ull, 0x0f0e0d0c0b0a0908ull)) F("default key differs");
		return "";
	}
	int w = atoi(c.fn.c_str() + 3);
	switch (c.fn[6]) {
	case '1': return c.fn[8] == '1' ? fnv<char>(c, w) : fnv<unsigned char>(c, w);
	case '2': return fnv<uint16_t>(c, w);
	default: return fnv<uint32_t>(c, w);
	}
}
void gen(Rng& r, const std::string& fn, Case& c) { c.n["v"] = r.coin() ? 0 : r.val(); c.n["k0"] = r.val(); c.n["k1"] = r.val(); c.s["p"] = r.bytes(r.biglen(600)); }
