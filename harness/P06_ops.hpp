/* the operations under test, compiled once per configuration */
static std::string chunks(uint64_t seed, const std::string& m, size_t L, size_t room, int which)
{
	/* feed m[0..L) in random pieces, the rest through digest */
	Rng r(seed);
	std::string out;
#define RUN(C) { C h; if (seed & 1) { h.update("junk", 4); std::string t(64, 0); h.digest(&t[0], 64, "x", 1); h.clear(); } \
	size_t p = 0; while (p < L) { size_t n = r.coin() ? r.below(300) : r.below(70); if (n > L - p) n = L - p; HeapBuf b(m.substr(p, n)); if (r.coin(4)) h.update(m.substr(p, n)); else h.update(b.p, n); p += n; } \
	HeapBuf last(m.substr(L)); \
	switch (room == 0 ? r.below(2) : 2) { case 0: return h.digest(last.p, last.n); case 1: return h.digest(m.substr(L)); \
	default: { HeapBuf md(room); size_t z = h.digest(md.p, room, last.p, last.n); if (z == 0) { for (size_t i = 0; i < room; i++) if ((uint8_t)md.p[i] != 0xAA) return "touched"; return ""; } for (size_t i = z; i < room; i++) if ((uint8_t)md.p[i] != 0xAA) return "overrun"; return std::string(md.p, z); } } }
	if (which == 256) RUN(cybozu::Sha256)
	RUN(cybozu::Sha512)
#undef RUN
}
static std::string hm(const std::string& key, const std::string& msg)
{
	HeapBuf k(key), m(msg), o(32);
	cybozu::hmac256(o.p, k.p, k.n, m.p, m.n);
	return o.str();
}
