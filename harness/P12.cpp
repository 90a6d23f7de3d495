#include "h.hpp"
#include <cybozu/string_operation.hpp>
using namespace cybozu;
template<class C> static bool sp(C c)
{
	if (sizeof(C) == 1) return c == ' ' || c == '\t';
	static const uint32_t t[] = { 9, 10, 11, 12, 13, 0x20, 0x85, 0xa0, 0x1680, 0x180e, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xfeff };
	for (size_t i = 0; i < sizeof(t) / sizeof(t[0]); i++) if ((uint32_t)c == t[i]) return true;
	return false;
}
template<class C> static C lo(C c) { return c >= 65 && c <= 90 ? C(c + 32) : c; }
template<class C> static C up(C c) { return c >= 97 && c <= 122 ? C(c - 32) : c; }
static std::string los(std::string s) { for (size_t i = 0; i < s.size(); i++) s[i] = lo(s[i]); return s; }
static std::string ups(std::string s) { for (size_t i = 0; i < s.size(); i++) s[i] = up(s[i]); return s; }
template<class C, class D> static int cmp(const C *a, size_t n, const D *b, size_t m)
{
	for (size_t i = 0; i < n && i < m; i++) { C x = lo(a[i]); D y = lo(b[i]); if (x < y) return -1; if (x > y) return 1; }
	return n < m ? -1 : n > m ? 1 : 0;
}
static std::string trim(const std::string& s) { size_t b = 0, e = s.size(); while (b < e && sp(s[b])) b++; while (b < e && sp(s[e - 1])) e--; return s.substr(b, e - b); }
template<class C> static std::string ptr(const std::string& f, const std::string& m)
{
	HeapBuf h(m.substr(0, m.size() / sizeof(C) * sizeof(C)));
	const C *b = (const C*)h.p, *e = b + h.n / sizeof(C), *p = b, *q = e;
	while (p < e && sp(*p)) p++;
	if (f == "skip") return SkipSpace(b, e) == p ? "" : "SkipSpace";
	while (p < q && sp(q[-1])) q--;
	const C *r = string_local::GetTrimPosition(b, e);
	return r == p && e == q ? "" : "GetTrimPosition";
}
template<class C, class D> static std::string two(const std::string& f, const std::string& x, const std::string& y)
{
	HeapBuf g(x.substr(0, x.size() / sizeof(C) * sizeof(C))), h(y.substr(0, y.size() / sizeof(D) * sizeof(D)));
	const C *a = (const C*)g.p; const D *b = (const D*)h.p;
	size_t n = g.n / sizeof(C), m = h.n / sizeof(D);
	return CaseEqual(a, n, b, m) == (cmp(a, n, b, m) == 0) ? "" : "CaseEqual";
}
template<class C> static std::string one(const std::string& f, C c)
{
	if (f == "isspace") return IsSpace<C>(c) == sp(c) ? "" : "IsSpace";
	if (f == "lower") return cybozu::tolower(c) == lo(c) ? "" : "tolower";
	return cybozu::toupper(c) == up(c) ? "" : "toupper";
}
std::string check(const Case& cs)
{
	std::string f = cs.fn, m = cs.b("M"), a = cs.b("A"), b = cs.b("B");
	if (f == "isspace8" || f == "lower8" || f == "upper8") return one<char>(f.substr(0, f.size() - 1), (char)cs.i("c"));
	if (f == "isspace32" || f == "lower32" || f == "upper32") return one<Char>(f.substr(0, f.size() - 2), (Char)(uint32_t)cs.i("c"));
	if (f == "skip8" || f == "pos8") return ptr<char>(f.substr(0, f.size() - 1), m);
	if (f == "skip32" || f == "pos32") return ptr<Char>(f.substr(0, f.size() - 2), m);
	if (f == "eq8") return two<char, char>(f, a, b);
	if (f == "eq32") return two<Char, Char>(f, a, b);
	if (f == "eq328") return two<Char, char>(f, a, b);
	if (f == "cmp8") { HeapBuf g(a), h(b); return CaseCompare(g.p, g.n, h.p, h.n) == cmp(g.p, g.n, h.p, h.n) ? "" : "CaseCompare"; }
	if (f == "cmp32") { HeapBuf g(a.substr(0, a.size() & ~3)), h(b.substr(0, b.size() & ~3)); const Char *p = (const Char*)g.p, *q = (const Char*)h.p; return CaseCompare(p, g.n / 4, q, h.n / 4) == cmp(p, g.n / 4, q, h.n / 4) ? "" : "CaseCompare"; }
	if (f == "trim") { std::string s = m; Trim(s); return s == trim(m) ? "" : "Trim gives x:" + hexs(s); }
	if (f == "trimcopy") return TrimCopy(m) == trim(m) ? "" : "TrimCopy";
	if (f == "strip") { std::string s = m; Strip(s); size_t e = m.size(); while (e && (m[e - 1] == '\n' || m[e - 1] == '\r')) e--; return s == m.substr(0, e) ? "" : "Strip"; }
	if (f == "tolower" || f == "toupper") {
		std::string o = cs.b("old"), w = (cs.i("app") ? o : std::string()) + (f == "tolower" ? los(m) : ups(m));
		if (f == "tolower") ToLower(o, m, cs.i("app") != 0); else ToUpper(o, m, cs.i("app") != 0);
		return o == w ? "" : f + " gives x:" + hexs(o);
	}
	if (f == "tolower1") { std::string s = m; ToLower(s); return s == los(m) ? "" : "ToLower"; }
	if (f == "toupper1") { std::string s = m; ToUpper(s); return s == ups(m) ? "" : "ToUpper"; }
	if (f == "cmps") return CaseCompare(a, b) == cmp(a.data(), a.size(), b.data(), b.size()) ? "" : "CaseCompare";
	if (f == "eqs") return CaseEqual(a, b) == (los(a) == los(b)) ? "" : "CaseEqual";
	if (f == "eqp") { std::string q = b.c_str(); HeapBuf h(q + '\0'); return CaseEqual(a, h.p) == (los(a) == los(q)) ? "" : "CaseEqual(char*)"; }
	if (f == "start") return CaseEqualStartWith(a, "aB@") == (los(a).compare(0, 3, "ab@") == 0) ? "" : "CaseEqualStartWith";
	if (f == "split" || f == "splitk") {
		std::vector<std::string> w, g(1, "old");
		char c = (char)cs.i("c"); uint64_t mx = cs.i("max");
		if (f == "splitk") w = g;
		size_t k = 0, p = 0;
		for (;;) {
			size_t q = p; while (q < m.size() && m[q] != c) q++;
			k++;
			if (q == m.size() || k == mx) { w.push_back(m.substr(p)); break; }
			w.push_back(m.substr(p, q - p));
			p = q + 1;
		}
		size_t r = Split(g, m, c, mx, f == "split");
		if (r != k) return "Split returns " + std::to_string(r);
		return g == w ? "" : "Split pieces";
	}
	if (f == "find" || f == "findz" || f == "finds" || f == "findsz") {
		bool z = f[f.size() - 1] == 'z';
		std::string t = cs.b("T"); if (z) t = t.c_str();
		size_t w = los(m).find(los(t));
		HeapBuf h(m), g(z ? t + '\0' : t);
		if (f == "find" || f == "findz") {
			const char *p = CaseFind<char>(h.p, h.p + h.n, g.p, z ? 0 : g.p + g.n);
			return p == (w == std::string::npos ? 0 : h.p + w) ? "" : "CaseFind";
		}
		if (m.empty()) w = std::string::npos;
		return CaseFind<char>(m, g.p, z ? 0 : g.p + g.n) == w ? "" : "CaseFind(string)";
	}
	return "skip";
}
static std::string text(Rng& r, size_t n)
{
	switch (r.below(4)) {
	case 0: return r.from("aAbBzZ@[`{", n);
	case 1: return r.from(" \t a\r\n,", n);
	case 2: return r.bytes(n);
	default: return r.from("aAbB\xc1\xe1,", n);
	}
}
static std::string wide(Rng& r, const std::string& s)
{
	static const uint32_t t[] = { 8, 9, 13, 14, 0x20, 0x84, 0x85, 0xa0, 0xa1, 0x1680, 0x180e, 0x1fff, 0x2000, 0x200a, 0x200b, 0x2027, 0x2028, 0x2029, 0x202a, 0x202f, 0x205f, 0x3000, 0xfeff, 0x10041, 0x80000041, 0xffffff41 };
	std::string o;
	for (size_t i = 0; i < s.size(); i++) { uint32_t c = (uint8_t)s[i]; if (r.coin(3)) c = t[r.below(sizeof(t) / sizeof(t[0]))]; o.append((const char*)&c, 4); }
	return o;
}
void gen(Rng& r, const std::string& f, Case& c)
{
	if (f == "isspace8" || f == "lower8" || f == "upper8") { c.n["c"] = r.below(256); return; }
	if (f == "isspace32" || f == "lower32" || f == "upper32") { uint32_t v = r.coin() ? (uint32_t)r.below(0x3100) : (uint32_t)r.val(); if ((v >> 16) == 0x8000) v ^= 0x1000000; c.n["c"] = v; return; }
	size_t n = r.coin() ? r.below(6) : r.biglen(100);
	std::string m = text(r, n);
	if (f.find("rim") != std::string::npos || f == "skip8" || f == "pos8" || f == "strip") { m = r.from(" \t", r.below(4)) + m + r.from(f == "strip" ? "\r\n" : " \t", r.below(4)); }
	bool w = f.size() > 2 && f.substr(f.size() - 2) == "32";
	if (f.compare(0, 3, "cmp") == 0 || f.compare(0, 2, "eq") == 0 || f == "start") {
		std::string b = m;
		for (size_t i = 0; i < b.size(); i++) if (r.coin(3)) b[i] = r.coin() ? lo(b[i]) : up(b[i]);
		if (r.coin() && b.size()) b[r.below(b.size())] ^= (char)(1 << r.below(8));
		if (r.coin(3)) b.resize(r.below(b.size() + 1));
		if (r.coin(4)) m += text(r, 1);
		if (f == "start") { m = r.from("aA", 1) + r.from("bB", 1) + r.from("@`", 1) + m; m.resize(r.below(6)); }
		if (w) { uint64_t s0 = r.s; m = wide(r, m); r.s = s0; b = wide(r, b); }
		if (f == "eq328") { std::string o; for (size_t i = 0; i < m.size(); i++) { int32_t v = m[i]; if (r.coin(20)) v ^= 0x100; o.append((const char*)&v, 4); } m = o; }
		c.s["A"] = m; c.s["B"] = b;
		return;
	}
	if (w) m = wide(r, m);
	c.s["M"] = m;
	if (f == "tolower" || f == "toupper") { c.s["old"] = text(r, r.len(20)); c.n["app"] = r.below(2); }
	if (f == "split" || f == "splitk") { c.n["c"] = (uint8_t)(m.size() && r.coin() ? m[r.below(m.size())] : ','); c.n["max"] = r.coin() ? 0x7fffffff : r.below(8); }
	if (f.compare(0, 4, "find") == 0) { std::string t = m.substr(r.below(m.size() + 1)); t.resize(r.below(t.size() + 1) % (r.coin() ? 4 : 40)); for (size_t i = 0; i < t.size(); i++) if (r.coin()) t[i] = up(t[i]); if (r.coin(3)) t += text(r, 1); c.s["T"] = t; }
}
