#include "h.hpp"
#include <list>
#include <set>
#include <cybozu/serializer.hpp>
#include <cybozu/string.hpp>
struct PieceIn {
	const std::string& s; size_t p; Rng r;
	PieceIn(const std::string& s, size_t pre, uint64_t seed) : s(s), p(pre), r(seed) {}
	size_t readSome(void *buf, size_t n)
	{
		size_t m = s.size() - p;
		if (m > n) m = n;
		if (m > 1 && r.coin()) m = 1 + r.below(m);
		if (m) memcpy(buf, s.data() + p, m);
		p += m;
		return m;
	}
};
struct StrOut { std::string s; void write(const void *p, size_t n) { s.append((const char*)p, n); } };
static std::string le(uint64_t v, size_t n) { std::string r; for (size_t i = 0; i < n; i++) r += (char)(v >> (8 * i)); return r; }
/* documented variable-length form of x (w bits) */
static std::string venc(uint64_t x, int w)
{
	int64_t sx = w == 32 ? (int64_t)(int32_t)x : (int64_t)x;
	uint64_t ux = w == 32 ? (uint32_t)x : x;
	if (sx >= -128 && sx <= 127) { uint8_t b = (uint8_t)x; return b >= 0x80 && b <= 0x87 ? std::string("\x84") + (char)b : std::string(1, (char)b); }
	if (ux < 0x100) return "\x80" + le(x, 1);
	if (ux < 0x10000) return "\x81" + le(x, 2);
	if (sx >= -32768 && sx <= 32767) return "\x85" + le(x, 2);
	if (ux < 0x100000000ull) return "\x82" + le(x, 4);
	if (sx >= INT32_MIN && sx <= INT32_MAX) return "\x86" + le(x, 4);
	return "\x83" + le(x, 8);
}
/* -> false if it cannot be read */
static bool vdec(const std::string& m, size_t& p, int w, uint64_t& x)
{
	if (p >= m.size()) return false;
	uint8_t h = (uint8_t)m[p++];
	if (h < 0x80 || h > 0x87) { x = (uint64_t)(int64_t)(int8_t)h; return true; }
	size_t n = size_t(1) << (h & 3);
	if (n == 8 && w == 32) return false;
	if (m.size() - p < n) return false;
	uint64_t v = 0;
	for (size_t i = 0; i < n; i++) v |= (uint64_t)(uint8_t)m[p + i] << (8 * i);
	p += n;
	if ((h & 4) && n < 8) { int s = 64 - 8 * (int)n; v = (uint64_t)((int64_t)(v << s) >> s); }
	x = v;
	return true;
}
static bool fdec(const std::string& m, size_t& p, size_t n, uint64_t& x)
{
	if (m.size() - p < n) return false;
	x = 0;
	for (size_t i = 0; i < n; i++) x |= (uint64_t)(uint8_t)m[p + i] << (8 * i);
	p += n;
	return true;
}
template<class T> std::string one(const Case& c, bool var, bool save)
{
	if (save) {
		T x = (T)c.i("x"); StrOut os; cybozu::save(os, x);
		std::string want = var ? venc((uint64_t)(int64_t)x, sizeof(T) * 8) : le((uint64_t)x, sizeof(T));
		if (os.s != want) return "saved bytes";
		T y = (T)~(uint64_t)x; PieceIn is(want, 0, 3); cybozu::load(y, is);
		return y == x && is.p == want.size() ? "" : "round trip";
	}
	std::string m = c.b("M"); size_t p = c.i("pre");
	if (p > m.size()) return "skip";
	PieceIn is(m, p, c.i("seed", 1));
	uint64_t v = 0; bool ok = var ? vdec(m, p, sizeof(T) * 8, v) : fdec(m, p, sizeof(T), v);
	T y = 0;
	try { cybozu::load(y, is); } catch (std::exception&) { return ok ? "refuses readable input" : ""; }
	if (!ok) return "accepts truncated or alien input";
	return y == (T)v && is.p == p ? "" : "loaded value";
}
template<class V, class E> std::string pods(const Case& c, bool save)
{
	if (save) {
		std::string b = c.b("v"); b.resize(b.size() / sizeof(E) * sizeof(E));
		V v; v.resize(b.size() / sizeof(E)); if (!b.empty()) memcpy((void*)&v[0], b.data(), b.size());
		StrOut os; cybozu::savePodVec(os, v);
		if (os.s != venc(v.size(), 64) + b) return "saved bytes";
		V u; u.resize(3); PieceIn is(os.s, 0, 5); cybozu::loadPodVec(u, is);
		return u == v && is.p == os.s.size() ? "" : "round trip";
	}
	std::string m = c.b("M"); size_t p = c.i("pre");
	if (p > m.size()) return "skip";
	PieceIn is(m, p, c.i("seed", 1));
	uint64_t n; bool ok = vdec(m, p, 64, n);
	if (ok && n > 1 << 20) return "skip";
	ok = ok && n <= (m.size() - p) / sizeof(E);
	V v; v.resize(2);
	try { cybozu::loadPodVec(v, is); } catch (std::exception&) { return ok ? "refuses readable input" : ""; }
	if (!ok) return "accepts truncated input";
	if (v.size() != n || is.p != p + n * sizeof(E)) return "loaded size";
	return n && memcmp(&v[0], m.data() + p, n * sizeof(E)) ? "loaded elements" : "";
}
template<class E> std::string vec(const Case& c, bool var, bool save)
{
	typedef std::vector<E> V;
	if (save) {
		std::string b = c.b("v"); V v(b.size() / sizeof(E)); if (!v.empty()) memcpy(&v[0], b.data(), v.size() * sizeof(E));
		StrOut os; cybozu::save(os, v);
		std::string want = venc(v.size(), 64);
		for (E x : v) want += var ? venc((uint64_t)(int64_t)x, sizeof(E) * 8) : le((uint64_t)x, sizeof(E));
		if (os.s != want) return "saved bytes";
		V u(3); PieceIn is(os.s, 0, 5); cybozu::load(u, is);
		return u == v && is.p == os.s.size() ? "" : "round trip";
	}
	std::string m = c.b("M"); size_t p = c.i("pre");
	if (p > m.size()) return "skip";
	PieceIn is(m, p, c.i("seed", 1));
	uint64_t n; bool ok = vdec(m, p, 64, n);
	if (ok && n > 1 << 20) return "skip";
	V w;
	for (uint64_t i = 0; ok && i < n; i++) { uint64_t x; ok = var ? vdec(m, p, sizeof(E) * 8, x) : fdec(m, p, sizeof(E), x); w.push_back((E)x); }
	V v(2);
	try { cybozu::load(v, is); } catch (std::exception&) { return ok ? "refuses readable input" : ""; }
	if (!ok) return "accepts truncated or alien input";
	return v == w && is.p == p ? "" : "loaded elements";
}
std::string check(const Case& c)
{
	std::string f = c.fn.substr(0, 5), t = c.fn.size() > 5 ? c.fn.substr(5) : "";
	bool sv = f == "save_";
	if (!sv && f != "load_") return "skip";
	if (t == "bool") { if (sv) { StrOut os; cybozu::save(os, (bool)(c.i("x") & 1)); return os.s == std::string(1, (char)(c.i("x") & 1)) ? "" : "saved bool"; }
		if (c.i("pre") < c.b("M").size() && (uint8_t)c.b("M")[c.i("pre")] > 1) return "skip"; return one<bool>(c, false, false); }
	if (t == "char") return one<char>(c, false, sv);
	if (t == "short") return one<short>(c, false, sv);
	if (t == "uchar") return one<unsigned char>(c, false, sv);
	if (t == "ushort") return one<unsigned short>(c, false, sv);
	if (t == "wchar") return one<wchar_t>(c, false, sv);
	if (t == "int") return one<int>(c, true, sv);
	if (t == "long") return one<long>(c, true, sv);
	if (t == "ll") return one<long long>(c, true, sv);
	if (t == "uint") return one<unsigned int>(c, true, sv);
	if (t == "ulong") return one<unsigned long>(c, true, sv);
	if (t == "ull") return one<unsigned long long>(c, true, sv);
	if (t == "str") return pods<std::string, char>(c, sv);
	if (t == "String") return pods<cybozu::String, cybozu::Char>(c, sv);
	if (t == "pod4") return pods<std::vector<uint32_t>, uint32_t>(c, sv);
	if (t == "pod8") return pods<std::vector<uint64_t>, uint64_t>(c, sv);
	if (t == "cstr") { std::string s = c.b("v"); s = s.c_str(); HeapBuf h(std::string(s.c_str(), s.size() + 1)); StrOut os; cybozu::save(os, (const char*)h.p); return os.s == venc(s.size(), 64) + s ? "" : "saved C string"; }
	if (t == "range") {
		if (sv) { std::string b = c.b("v"); b.resize(b.size() & ~size_t(1)); HeapBuf h(b); StrOut os; cybozu::saveRange(os, (const uint16_t*)h.p, b.size() / 2); return os.s == b ? "" : "saved range"; }
		size_t n = c.i("n"), p = c.i("pre"); std::string m = c.b("M");
		if (n > 1 << 20 || p > m.size()) return "skip";
		PieceIn is(m, p, 1); HeapBuf h(n * 2);
		try { cybozu::loadRange((uint16_t*)h.p, n, is); } catch (std::exception&) { return n * 2 <= m.size() - p ? "refuses readable input" : ""; }
		return n * 2 <= m.size() - p && h.str() == m.substr(p, n * 2) ? "" : "loaded range";
	}
	if (t == "vint") return vec<int>(c, true, sv);
	if (t == "vull") return vec<uint64_t>(c, true, sv);
	if (t == "vshort") return vec<unsigned short>(c, false, sv);
	return "skip";
}
static uint64_t vv(Rng& r) { uint64_t x = r.coin(3) ? r.below(0x200) - 0x100 : r.val(); return r.coin() ? x : 0 - x; }
void gen(Rng& r, const std::string& fn, Case& c)
{
	std::string f = fn.substr(0, 5), t = fn.size() > 5 ? fn.substr(5) : "";
	c.n["x"] = vv(r); c.n["seed"] = r.below(1 << 20);
	size_t n = r.coin(30) ? 120 + r.below(20) : r.coin(50) ? 250 + r.below(10) : r.coin(300) ? 65530 + r.below(10) : r.below(12);
	std::string v;
	size_t es = t == "str" || t == "cstr" ? 1 : t == "range" || t == "vshort" ? 2 : t == "String" || t == "pod4" || t == "vint" ? 4 : 8;
	for (size_t i = 0; i < n; i++) v += le(vv(r), es);
	c.s["v"] = v;
	std::string m = r.bytes(r.below(4));
	c.n["pre"] = m.size();
	bool w32 = t == "int" || t == "uint" || t == "vint";
	bool cont = t[0] == 'v' || t == "str" || t == "String" || t[0] == 'p';
	if (cont) m += r.coin() ? venc(n, 64) : "\x82" + le(n, 4);
	for (size_t i = 0; i < (cont ? n : 1); i++) {
		if (t == "vint" || t == "vull" || !cont) m += r.coin(5) ? std::string(1, (char)(0x80 + r.below(8))) + r.bytes(8) : venc(vv(r), w32 ? 32 : 64);
		else m += le(vv(r), es);
	}
	if (t == "bool") m += (char)r.below(2);
	m += r.bytes(r.below(6));
	if (r.coin(4)) m.resize(c.n["pre"] + r.below(m.size() - c.n["pre"] + 1));
	c.s["M"] = m;
	c.n["n"] = r.below(8);
}
