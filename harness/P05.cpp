#include <cybozu/xorshift.hpp>
#include <cybozu/pcg.hpp>
#include "h.hpp"
#define F(m) return c.fn + ": " + std::string(m)
static uint64_t rl(uint64_t x, int n) { return (x << n) | (x >> (64 - n)); }
struct OX {
	uint32_t x, y, z, w;
	void seed(const uint64_t *s) { uint32_t a[4] = { (uint32_t)s[0], (uint32_t)s[1], (uint32_t)s[2], (uint32_t)s[3] }; x = a[0] ? a[0] : 123456789; y = a[1] ? a[1] : 362436069; z = a[2] ? a[2] : 521288629; w = a[3] ? a[3] : 88675123; }
	void def() { uint64_t a[4] = {}; seed(a); }
	uint32_t out() { uint32_t t = x ^ (x << 11); x = y; y = z; z = w; return w = (w ^ (w >> 19)) ^ (t ^ (t >> 8)); }
	uint32_t get32() { return out(); }
	uint64_t get64() { uint64_t a = out(); return a << 32 | out(); }
	uint64_t call() { return out(); }
	static const int ob = 4;
};
struct O128 {
	uint64_t a, b;
	void seed(const uint64_t *s) { a = s[0]; b = s[1]; }
	void def() { a = 123456789; b = 987654321; }
	uint64_t out() { uint64_t s1 = a, s0 = b; a = s0; s1 ^= s1 << 23; b = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5); return b + s0; }
	uint32_t get32() { return (uint32_t)out(); }
	uint64_t get64() { return out(); }
	uint64_t call() { return out(); }
	static const int ob = 8;
};
struct OO : O128 {
	uint64_t out() { uint64_t s0 = a, s1 = b, r = s0 + s1; s1 ^= s0; a = rl(s0, 55) ^ s1 ^ (s1 << 14); b = rl(s1, 36); return r; }
	uint32_t get32() { return (uint32_t)out(); }
	uint64_t get64() { return out(); }
	uint64_t call() { return out(); }
};
struct OP {
	uint64_t s;
	void seed(const uint64_t *a) { s = a[0]; }
	void def() { s = 0x185706b82c2e03f8ull; }
	uint32_t out() { uint64_t o = s; s = o * 6364136223846793005ull + 0x6d; uint32_t x = (uint32_t)(((o >> 18) ^ o) >> 27), r = (uint32_t)(o >> 59); return r ? (x >> r) | (x << (32 - r)) : x; }
	uint32_t get32() { return out(); }
	uint64_t get64() { uint64_t a = out(); return a << 32 | out(); }
	uint64_t call() { return out(); }
	static const int ob = 0;
};
static cybozu::XorShift mk(cybozu::XorShift*, const uint64_t *a) { return cybozu::XorShift((uint32_t)a[0], (uint32_t)a[1], (uint32_t)a[2], (uint32_t)a[3]); }
static cybozu::XorShift128Plus mk(cybozu::XorShift128Plus*, const uint64_t *a) { return cybozu::XorShift128Plus(a[0], a[1]); }
static cybozu::Xoroshiro128Plus mk(cybozu::Xoroshiro128Plus*, const uint64_t *a) { return cybozu::Xoroshiro128Plus(a[0], a[1]); }
static cybozu::Pcg32 mk(cybozu::Pcg32*, const uint64_t *a) { return cybozu::Pcg32(a[0]); }
template<class O> std::string block(O& o, size_t n, size_t esz)
{
	std::string r;
	if (O::ob == 0) {
		for (size_t i = 0; i < n; i++) { uint64_t v = esz == 8 ? o.get64() : o.get32(); r.append((const char*)&v, esz); }
		return r;
	}
	while (r.size() < n * esz) { uint64_t v = o.out(); r.append((const char*)&v, O::ob); }
	r.resize(n * esz);
	return r;
}
template<class G> void readb(G& g, bool *b, uint8_t *p, size_t n) { g.read(b, p, n); }
static void readb(cybozu::Pcg32& g, bool *b, uint8_t *p, size_t n) { g.read(p, n); *b = true; }
template<class G> void reinit(G& g, const uint64_t *a, bool def) { if (def) g.init(); else g.init(a[0], a[1]); }
static void reinit(cybozu::XorShift& g, const uint64_t *a, bool def) { if (def) g.init(); else g.init(a[0], a[1], a[2], a[3]); }
static void reinit(cybozu::Pcg32& g, const uint64_t *a, bool def) { g = def ? cybozu::Pcg32() : cybozu::Pcg32(a[0]); }
template<class G, class O> std::string run(const Case& c)
{
	uint64_t a[4], b[4];
	const char *nm[] = { "s0", "s1", "s2", "s3" }, *am[] = { "a0", "a1", "a2", "a3" };
	for (int i = 0; i < 4; i++) { a[i] = c.i(nm[i], 1 + i); b[i] = c.i(am[i], 0); }
	size_t n = c.i("n") % 300000;
	G g = mk((G*)0, a);
	O o; o.seed(a);
	for (int i = 0; i < 3; i++) {
		if (g.get32() != o.get32()) F("get32");
		if (g.get64() != o.get64()) F("get64");
		if ((uint64_t)g() != o.call()) F("operator()");
		HeapBuf p8(n), p32(n * 4), p64(n * 8), pb(n);
		std::string e = block(o, n, 1);
		g.read((uint8_t*)p8.p, n);
		if (p8.str() != e) F("read8");
		e = block(o, n, 4);
		g.read((uint32_t*)p32.p, n);
		if (p32.str() != e) F("read32");
		e = block(o, n, 8);
		g.read((uint64_t*)p64.p, n);
		if (p64.str() != e) F("read64");
		bool ok = false;
		e = block(o, n, 1);
		readb(g, &ok, (uint8_t*)pb.p, n);
		if (!ok || pb.str() != e) F("read with flag");
		if (i == 0) { reinit(g, b, false); o.seed(b); }
		if (i == 1) { reinit(g, b, true); o.def(); }
	}
	G d;
	o.def();
	if (d.get64() != o.get64()) F("default state");
	return "";
}
std::string check(const Case& c)
{
	if (c.fn == "XorShift") return run<cybozu::XorShift, OX>(c);
	if (c.fn == "XorShift128Plus") return run<cybozu::XorShift128Plus, O128>(c);
	if (c.fn == "Xoroshiro128Plus") return run<cybozu::Xoroshiro128Plus, OO>(c);
	return run<cybozu::Pcg32, OP>(c);
}
void gen(Rng& r, const std::string& fn, Case& c)
{
	for (const char *k : { "s0", "s1", "s2", "s3", "a0", "a1", "a2", "a3" }) c.n[k] = r.val();
	c.n["n"] = r.biglen(200);
}
