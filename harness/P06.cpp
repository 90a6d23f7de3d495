#define CYBOZU_DONT_USE_OPENSSL
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#include "h.hpp"
#include "P06_ops.hpp"
#define F(m) return c.fn + ": " + std::string(m)
std::string ssl_chunks(uint64_t seed, const std::string& m, size_t L, size_t room, int which);
std::string ssl_hm(const std::string& key, const std::string& msg);
template<class W> W rr(W x, int n) { return (x >> n) | (x << (sizeof(W) * 8 - n)); }
/* constants from the fractional parts of square and cube roots of primes */
typedef unsigned __int128 u128;
struct Consts {
	uint64_t iv[8], k[80];
	static uint64_t frac(int p, int e)
	{
		/* floor(p^(1/e) * 2^64) mod 2^64 by long double start + integer correction is fiddly: binary search with 256-bit product */
		u128 lo = 0, hi = (u128)20 << 64;
		while (lo < hi) {
			u128 m = lo + (hi - lo + 1) / 2;
			if (le(m, p, e)) lo = m; else hi = m - 1;
		}
		return (uint64_t)lo;
	}
	/* m^e <= p * 2^(64e) */
	static bool le(u128 m, int p, int e)
	{
		uint32_t a[16] = {}, b[16] = {};
		uint32_t mm[4]; for (int i = 0; i < 4; i++) mm[i] = (uint32_t)(m >> (32 * i));
		a[0] = 1;
		for (int q = 0; q < e; q++) {
			uint32_t t[16] = {};
			for (int i = 0; i < 12; i++) { uint64_t c = 0; for (int j = 0; j < 4; j++) { if (i + j >= 16) break; uint64_t v = (uint64_t)a[i] * mm[j] + t[i + j] + c; t[i + j] = (uint32_t)v; c = v >> 32; } if (i + 4 < 16) t[i + 4] += (uint32_t)c; }
			memcpy(a, t, sizeof(a));
		}
		b[2 * e] = p;
		for (int i = 15; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i];
		return true;
	}
	Consts()
	{
		int n = 0;
		for (int p = 2; n < 80; p++) { bool pr = true; for (int q = 2; q * q <= p; q++) if (p % q == 0) pr = false; if (!pr) continue; if (n < 8) iv[n] = frac(p, 2); k[n++] = frac(p, 3); }
	}
};
static const Consts& cs() { static Consts c; return c; }
static std::string pad(const std::string& m, size_t B, size_t LB)
{
	std::string p = m; p += (char)0x80;
	while (p.size() % B != B - LB) p += (char)0;
	for (size_t i = 0; i < LB - 8; i++) p += (char)0;
	uint64_t b = (uint64_t)m.size() * 8;
	for (int i = 7; i >= 0; i--) p += (char)(b >> (8 * i));
	return p;
}
template<class W> std::string sha2(const std::string& m, const int (*rt)[3], int R)
{
	W h[8], k[80];
	int sh = 64 - sizeof(W) * 8;
	for (int i = 0; i < 8; i++) h[i] = (W)(cs().iv[i] >> sh);
	for (int i = 0; i < 80; i++) k[i] = (W)(cs().k[i] >> sh);
	std::string p = pad(m, sizeof(W) * 16, sizeof(W) * 2);
	for (size_t o = 0; o < p.size(); o += sizeof(W) * 16) {
		W w[80];
		for (int i = 0; i < 16; i++) { w[i] = 0; for (size_t j = 0; j < sizeof(W); j++) w[i] = (w[i] << 8) | (uint8_t)p[o + i * sizeof(W) + j]; }
		for (int t = 16; t < R; t++) w[t] = (rr(w[t-2], rt[3][0]) ^ rr(w[t-2], rt[3][1]) ^ (w[t-2] >> rt[3][2])) + w[t-7] + (rr(w[t-15], rt[2][0]) ^ rr(w[t-15], rt[2][1]) ^ (w[t-15] >> rt[2][2])) + w[t-16];
		W v[8]; memcpy(v, h, sizeof(v));
		for (int t = 0; t < R; t++) {
			W t1 = v[7] + (rr(v[4], rt[1][0]) ^ rr(v[4], rt[1][1]) ^ rr(v[4], rt[1][2])) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[t] + w[t];
			W t2 = (rr(v[0], rt[0][0]) ^ rr(v[0], rt[0][1]) ^ rr(v[0], rt[0][2])) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			for (int i = 7; i > 0; i--) v[i] = v[i-1];
			v[4] += t1; v[0] = t1 + t2;
		}
		for (int i = 0; i < 8; i++) h[i] += v[i];
	}
	std::string r;
	for (int i = 0; i < 8; i++) for (int j = sizeof(W) - 1; j >= 0; j--) r += (char)(h[i] >> (8 * j));
	return r;
}
static std::string o256(const std::string& m) { static const int rt[4][3] = { { 2, 13, 22 }, { 6, 11, 25 }, { 7, 18, 3 }, { 17, 19, 10 } }; return sha2<uint32_t>(m, rt, 64); }
static std::string o512(const std::string& m) { static const int rt[4][3] = { { 28, 34, 39 }, { 14, 18, 41 }, { 1, 8, 7 }, { 19, 61, 6 } }; return sha2<uint64_t>(m, rt, 80); }
static std::string o1(const std::string& m)
{
	uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
	std::string p = pad(m, 64, 8);
	for (size_t o = 0; o < p.size(); o += 64) {
		uint32_t w[80], v[5]; memcpy(v, h, sizeof(v));
		for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 4; j++) w[i] = (w[i] << 8) | (uint8_t)p[o + i * 4 + j]; }
		for (int t = 16; t < 80; t++) w[t] = rr<uint32_t>(w[t-3] ^ w[t-8] ^ w[t-14] ^ w[t-16], 31);
		for (int t = 0; t < 80; t++) {
			uint32_t f = t < 20 ? (v[1] & v[2]) | (~v[1] & v[3]) : t < 40 || t >= 60 ? v[1] ^ v[2] ^ v[3] : (v[1] & v[2]) | (v[1] & v[3]) | (v[2] & v[3]);
			static const uint32_t k[] = { 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6 };
			uint32_t T = rr(v[0], 27) + f + v[4] + w[t] + k[t / 20];
			v[4] = v[3]; v[3] = v[2]; v[2] = rr(v[1], 2); v[1] = v[0]; v[0] = T;
		}
		for (int i = 0; i < 5; i++) h[i] += v[i];
	}
	std::string r;
	for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) r += (char)(h[i] >> (8 * j));
	return r;
}
std::string check(const Case& c)
{
	if (c.fn == "hmac256") {
		std::string key = c.b("key"), msg = c.b("msg"), k = key.size() > 64 ? o256(key) : key;
		k.resize(64);
		std::string a = k, b = k;
		for (int i = 0; i < 64; i++) { a[i] ^= 0x36; b[i] ^= 0x5c; }
		std::string e = o256(b + o256(a + msg));
		if (hm(key, msg) != e) F("hmac differs");
		if (ssl_hm(key, msg) != e) F("hmac (OpenSSL) differs");
		return "";
	}
	size_t L = c.i("L") % 300000, n = c.i("n") % 300000, room = c.i("mdSize") % 200;
	uint64_t seed = c.i("seed", 7);
	Rng r(seed + 1);
	std::string m = r.bytes(L + n);
	if (c.fn == "Sha1") {
		cybozu::Sha1 h;
		std::string e = o1(m);
		/* the object is reset by digest: use it three times */
		for (int i = 0; i < 3; i++) {
			size_t p = 0;
			while (p < L) { size_t q = r.coin() ? r.below(300) : r.below(70); if (q > L - p) q = L - p; HeapBuf b(m.substr(p, q)); if (r.coin(4)) h.update(m.substr(p, q)); else h.update(b.p, q); p += q; }
			HeapBuf last(m.substr(L));
			std::string d = r.coin() ? h.digest(last.p, last.n) : h.digest(m.substr(L));
			if (d != e) F("digest differs");
		}
		return "";
	}
	int w = c.fn == "Sha256" ? 256 : 512;
	size_t nb = w / 8;
	std::string e = w == 256 ? o256(m) : o512(m);
	for (int ssl = 0; ssl < 2; ssl++) for (int k = 0; k < 2; k++) {
		std::string d = ssl ? ssl_chunks(seed + k, m, L, 0, w) : chunks(seed + k, m, L, 0, w);
		if (d != e) F(ssl ? "digest (OpenSSL) differs" : "digest differs");
		if (room == 0) continue;
		d = ssl ? ssl_chunks(seed + k, m, L, room, w) : chunks(seed + k, m, L, room, w);
		if (d != (room < nb ? "" : e)) F(ssl ? "digest to buffer (OpenSSL) differs" : "digest to buffer differs");
	}
	return "";
}
void gen(Rng& r, const std::string& fn, Case& c)
{
	if (fn == "hmac256") { c.s["key"] = r.bytes(r.coin() ? 60 + r.below(10) : r.len(200)); c.s["msg"] = r.bytes(r.biglen(300)); return; }
	c.n["L"] = r.coin(3) ? 0 : r.len(300);
	c.n["n"] = r.coin(3) ? 0 : r.biglen(300);
	c.n["mdSize"] = r.coin() ? 0 : r.len(70);
	c.n["seed"] = r.below(1u << 30);
}
