#include "h.hpp"
#include <cybozu/base64.hpp>
#include <cybozu/stream.hpp>

/* delivers the bytes in pieces */
struct ChunkIn {
	const std::string& s; size_t p; Rng r;
	ChunkIn(const std::string& s, uint64_t seed) : s(s), p(0), r(seed) {}
	size_t readSome(void *buf, size_t n)
	{
		size_t m = s.size() - p;
		if (m > n) m = n;
		if (m > 1 && r.coin()) m = 1 + r.below(m);
		if (m) memcpy(buf, s.data() + p, m);
		p += m;
		return m;
	}
};
struct StrOut {
	std::string s;
	void write(const void *p, size_t n) { s.append((const char*)p, n); }
	void write(bool *pb, const void *p, size_t n) { s.append((const char*)p, n); *pb = true; }
};
static const char *ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string enc(const std::string& x, size_t L, int mode)
{
	std::string t, o;
	for (size_t i = 0; i < x.size(); i += 3) {
		size_t n = x.size() - i;
		uint32_t v = (uint32_t)(uint8_t)x[i] << 16;
		if (n > 1) v |= (uint32_t)(uint8_t)x[i + 1] << 8;
		if (n > 2) v |= (uint8_t)x[i + 2];
		t += ALPHA[v >> 18]; t += ALPHA[(v >> 12) & 63];
		t += n > 1 ? ALPHA[(v >> 6) & 63] : '='; t += n > 2 ? ALPHA[v & 63] : '=';
	}
	if (!L) return t;
	const char *e = mode == 0 ? "\n" : mode == 1 ? "\r\n" : "";
	for (size_t i = 0; i < t.size(); i += L) o += t.substr(i, L) + e;
	return o;
}
static std::string dec(const std::string& x)
{
	std::string o;
	uint32_t acc = 0; int nb = 0;
	for (char c : x) {
		const char *p = c ? strchr(ALPHA, c) : 0;
		if (!p) continue;
		acc = acc << 6 | (uint32_t)(p - ALPHA); nb += 6;
		if (nb >= 8) { nb -= 8; o += (char)(acc >> nb); acc &= (1u << nb) - 1; }
	}
	return o;
}
static std::string cmp(const char *what, const std::string& got, const std::string& want)
{
	if (got == want) return "";
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	return std::string(what) + ": differs at byte " + std::to_string(i) + ", lengths " + std::to_string(got.size()) + " and " + std::to_string(want.size());
}
std::string check(const Case& c)
{
	const std::string& x = c.b("M");
	uint64_t seed = c.i("seed", 1);
	std::string m;
	if (c.fn == "dec") {
		for (int k = 0; k < 2; k++) {
			ChunkIn is(x, seed + k); StrOut os;
			cybozu::DecodeFromBase64(os, is);
			m = cmp("decoded bytes", os.s, dec(x));
			if (!m.empty()) return m;
		}
		std::istringstream is(x); std::ostringstream os;
		cybozu::DecodeFromBase64(os, is);
		return cmp("decoded bytes (std streams)", os.str(), dec(x));
	}
	size_t L = c.i("maxLine", 76); int mode = (int)c.i("mode", 1);
	if (mode < 0 || mode > 2) return "skip";
	bool ok = L <= 128 && L % 4 == 0;
	ChunkIn is(x, seed); StrOut os;
	try {
		if (L == 76 && mode == 1 && (seed & 1)) cybozu::EncodeToBase64(os, is);
		else cybozu::EncodeToBase64(os, is, L, mode);
	} catch (std::exception&) {
		if (ok) return "a valid line size is refused";
		return os.s.empty() ? "" : "output before the refusal";
	}
	if (!ok) return "an invalid line size is accepted";
	m = cmp("encoded text", os.s, enc(x, L, mode));
	if (!m.empty()) return m;
	{
		std::istringstream is2(x); std::ostringstream os2;
		cybozu::EncodeToBase64(os2, is2, L, mode);
		m = cmp("encoded text (std streams)", os2.str(), enc(x, L, mode));
		if (!m.empty()) return m;
	}
	{
		cybozu::StringInputStream is2(x); std::string t; cybozu::StringOutputStream os2(t);
		cybozu::EncodeToBase64(os2, is2, L, mode);
		m = cmp("encoded text (string streams)", t, enc(x, L, mode));
		if (!m.empty()) return m;
	}
	ChunkIn b(os.s, seed); StrOut y;
	cybozu::DecodeFromBase64(y, b);
	return cmp("round trip", y.s, x);
}
void gen(Rng& r, const std::string& fn, Case& c)
{
	c.n["seed"] = r.below(1 << 20);
	size_t n = r.coin(4) ? r.below(5000) : r.coin(3) ? 700 + r.below(700) : r.biglen(300);
	if (fn == "dec") {
		if (r.coin()) {
			c.s["M"] = enc(r.bytes(n), 4 * r.below(33), (int)r.below(3));
			if (r.coin(3) && !c.s["M"].empty()) c.s["M"].resize(r.below(c.s["M"].size() + 1));
		} else if (r.coin()) c.s["M"] = r.bytes(n);
		else c.s["M"] = r.from("ABCDwxyz0189+/==\r\n -_", n);
	} else {
		c.s["M"] = r.bytes(n);
		c.n["maxLine"] = r.coin(6) ? r.below(200) : r.coin(3) ? 76 : 4 * r.below(33);
		c.n["mode"] = r.below(3);
	}
}
