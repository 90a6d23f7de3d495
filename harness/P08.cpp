#include "h.hpp"
#include <cybozu/string.hpp>
using namespace cybozu;
typedef std::vector<uint32_t> U32;
/* reference decoder / encoder (Unicode 3.9, tables 3-6 and 3-7) */
static size_t dec8(const uint8_t *p, size_t n, uint32_t& c)
{
	if (!n) return 0;
	uint8_t b = p[0];
	size_t k; uint32_t mn;
	if (b < 0x80) { c = b; return 1; }
	if (b >= 0xc0 && b < 0xe0) { k = 2; c = b & 31; mn = 0x80; }
	else if (b >= 0xe0 && b < 0xf0) { k = 3; c = b & 15; mn = 0x800; }
	else if (b >= 0xf0 && b < 0xf8) { k = 4; c = b & 7; mn = 0x10000; }
	else return 0;
	if (k > n) return 0;
	for (size_t i = 1; i < k; i++) { if ((p[i] & 0xc0) != 0x80) return 0; c = c << 6 | (p[i] & 63); }
	if (c < mn || c > 0x10ffff || (c >= 0xd800 && c < 0xe000)) return 0;
	return k;
}
static size_t dec16(const uint16_t *p, size_t n, uint32_t& c)
{
	if (!n) return 0;
	if (p[0] < 0xd800 || p[0] > 0xdfff) { c = p[0]; return 1; }
	if (p[0] > 0xdbff || n < 2 || p[1] < 0xdc00 || p[1] > 0xdfff) return 0;
	c = 0x10000 + ((uint32_t)(p[0] - 0xd800) << 10) + (p[1] - 0xdc00);
	return 2;
}
static bool valid(uint32_t c) { return c <= 0x10ffff && !(c >= 0xd800 && c < 0xe000); }
static void enc8(std::string& o, uint32_t c)
{
	if (c < 0x80) o += (char)c;
	else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
	else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
}
static void enc16(String16& o, uint32_t c)
{
	if (c < 0x10000) o += (Char16)c;
	else { c -= 0x10000; o += (Char16)(0xd800 + (c >> 10)); o += (Char16)(0xdc00 + (c & 0x3ff)); }
}
static std::string e8(const U32& v) { std::string o; for (uint32_t c : v) enc8(o, c); return o; }
static String16 e16(const U32& v) { String16 o; for (uint32_t c : v) enc16(o, c); return o; }
static std::basic_string<Char> e32(const U32& v) { std::basic_string<Char> o; for (uint32_t c : v) o += (Char)c; return o; }
static bool all8(const std::string& m, U32& v) { for (size_t p = 0; p < m.size();) { uint32_t c; size_t k = dec8((const uint8_t*)m.data() + p, m.size() - p, c); if (!k) return false; v.push_back(c); p += k; } return true; }
static bool all16(const String16& m, U32& v) { for (size_t p = 0; p < m.size();) { uint32_t c; size_t k = dec16((const uint16_t*)m.data() + p, m.size() - p, c); if (!k) return false; v.push_back(c); p += k; } return true; }

std::string check(const Case& cs)
{
	const std::string& f = cs.fn;
	std::string m = cs.b("M");
	uint32_t c = (uint32_t)cs.i("c");
	if (f == "size") { std::string o; if (valid(c)) enc8(o, c); return cybozu::string::GetCharSize((Char)c) == (int)o.size() ? "" : "GetCharSize"; }
	if (f == "valid") return cybozu::string::IsValidChar((Char)c) == valid(c) ? "" : "IsValidChar";
	if (f == "get16") {
		if (m.size() < 2) return "skip";
		HeapBuf h(m.substr(0, m.size() & ~size_t(1)));
		const Char16 *b = (const Char16*)h.p, *s0 = b;
		uint32_t w = 0; size_t k = dec16((const uint16_t*)b, h.n / 2, w);
		Char x = 77;
		bool ok = cybozu::string::GetCharFromUtf16(x, b, s0 + h.n / 2);
		if (b > s0 + h.n / 2) return "GetCharFromUtf16 leaves the range";
		if (k ? !ok || (uint32_t)x != w || b != s0 + k : (s0[0] < 0xdc00 && ok)) return "GetCharFromUtf16";
		return "";
	}
	if (f == "get8" || f == "next") {
		size_t p = f == "next" ? cs.i("p") : 0;
		if (p > m.size() || (f == "get8" && m.empty())) return "skip";
		HeapBuf h(m.substr(p));
		uint32_t w = 0; size_t k = dec8((const uint8_t*)h.p, h.n, w);
		Char x = 77;
		if (f == "get8") {
			const char *b = h.p;
			bool ok = cybozu::string::GetCharFromUtf8(&x, b, (const char*)h.p + h.n);
			if (b < h.p || b > h.p + h.n) return "GetCharFromUtf8 leaves the range";
			if (ok != (k != 0)) return ok ? "GetCharFromUtf8 accepts ill-formed text" : "GetCharFromUtf8 refuses well-formed text";
			if (ok && ((uint32_t)x != w || b != h.p + k)) return "GetCharFromUtf8 decodes wrongly";
			return "";
		}
		Utf8ref r(h.p, h.n);
		try {
			bool ok = r.next(&x);
			if (ok != (h.n != 0)) return "next: wrong end";
			if (ok && (!k || (uint32_t)x != w)) return "next: wrong character";
		} catch (std::exception&) { return k || !h.n ? "next: refuses well-formed text" : ""; }
		U32 v;
		if (!all8(h.str(), v)) return "";
		Utf8ref r2(h.p, h.n);
		for (uint32_t y : v) if (!r2.next(&x) || (uint32_t)x != y) return "next: wrong sequence";
		return r2.next(&x) ? "next: goes on after the end" : "";
	}
	if (f == "to8" || f == "app8") {
		std::string want; if (valid(c)) enc8(want, c);
		if (f == "to8") { char o[4] = { 1, 2, 3, 4 }; int n = cybozu::string::toUtf8(o, (Char)c); return n == (int)want.size() && want.compare(0, n, o, n) == 0 ? "" : "toUtf8"; }
		std::string o = "ab\x80"; bool ok = cybozu::string::AppendUtf8(o, (Char)c);
		return ok == !want.empty() && o == "ab\x80" + want ? "" : "AppendUtf8";
	}
	if (f == "to16" || f == "app16") {
		if (c >= 0xd800 && c < 0xe000) return "skip";
		String16 want; if (valid(c)) enc16(want, c);
		if (f == "to16") { Char16 o[2] = { 1, 2 }; int n = cybozu::string::toUtf16(o, (Char)c); return n == (int)want.size() && want.compare(0, n, o, n) == 0 ? "" : "toUtf16"; }
		String16 o(2, 7), w2(2, 7); w2 += want; bool ok = cybozu::string::AppendUtf16(o, (Char)c);
		return ok == !want.empty() && o == w2 ? "" : "AppendUtf16";
	}
	U32 v; bool ok;
	if (f.find("16_8") != std::string::npos || f == "ToUtf8" || f == "app_16") {
		String16 in(m.size() / 2, 0);
		if (!in.empty()) memcpy(&in[0], m.data(), in.size() * 2);
		ok = all16(in, v);
		HeapBuf h(m.substr(0, in.size() * 2));
		const Char16 *b = (const Char16*)h.p, *e = b + in.size();
		if (f == "app_16") {
			if (!ok && !v.empty() && false) return "skip";
			/* an unpaired trail unit at a character boundary is outside the contract here */
			for (size_t p = 0; p < in.size();) { uint32_t x; size_t k = dec16((const uint16_t*)in.data() + p, in.size() - p, x); if (!k) { if (in[p] >= 0xdc00) return "skip"; break; } p += k; }
			String s("xy"); 
			try { s.append(b, e); } catch (std::exception&) { return ok ? "append refuses well-formed UTF-16" : ""; }
			if (!ok) return "append accepts ill-formed UTF-16";
			std::basic_string<Char> w = e32(U32{'x', 'y'}) + e32(v);
			return s.get() == w ? "" : "append of UTF-16: wrong characters";
		}
		std::string o = "old";
		bool r;
		if (f == "ToUtf8") { try { o = ToUtf8(in); r = true; } catch (std::exception&) { r = false; } }
		else r = f == "conv_16_8" ? ConvertUtf16ToUtf8(&o, b, e) : ConvertUtf16ToUtf8(&o, in);
		if (r != ok) return r ? "accepts ill-formed UTF-16" : "refuses well-formed UTF-16";
		return !ok || o == e8(v) ? "" : "wrong UTF-8 text";
	}
	if (f.compare(0, 3, "str") == 0) {
		std::basic_string<Char> in(m.size() / 4, 0);
		if (!in.empty()) memcpy(&in[0], m.data(), in.size() * 4);
		ok = true;
		for (Char x : in) { v.push_back((uint32_t)x); if (!valid((uint32_t)x)) ok = false; if (f.compare(0, 5, "str16") == 0 && (uint32_t)x >= 0xd800 && (uint32_t)x < 0xe000) return "skip"; }
		String s; s.append(in.c_str(), in.size());
		bool r = true;
		if (f.compare(0, 4, "str8") == 0) {
			std::string o = f == "str8" ? "old" : "";
			try { if (f == "str8") s.toUtf8(o); else o = s.toUtf8(); } catch (std::exception&) { r = false; }
			if (r != ok) return r ? "toUtf8 accepts a bad character" : "toUtf8 refuses good characters";
			return !ok || o == (f == "str8" ? "old" : "") + e8(v) ? "" : "toUtf8: wrong text";
		}
		String16 o, pre;
		if (f == "str16") pre.assign(2, 9);
		o = pre;
		try { if (f == "str16") s.toUtf16(o); else o = s.toUtf16(); } catch (std::exception&) { r = false; }
		if (r != ok) return r ? "toUtf16 accepts a bad character" : "toUtf16 refuses good characters";
		return !ok || o == pre + e16(v) ? "" : "toUtf16: wrong text";
	}
	ok = all8(m, v);
	HeapBuf h(m);
	bool r = true;
	if (f.compare(0, 4, "conv") == 0 || f == "ToUtf16") {
		String16 o(3, 5);
		if (f == "ToUtf16") { try { o = ToUtf16(m); } catch (std::exception&) { r = false; } }
		else r = f == "conv_8_16" ? ConvertUtf8ToUtf16(&o, (const char*)h.p, (const char*)h.p + h.n) : f == "conv_8_16i" ? ConvertUtf8ToUtf16(&o, m.begin(), m.end()) : ConvertUtf8ToUtf16(&o, m);
		if (r != ok) return r ? "accepts ill-formed UTF-8" : "refuses well-formed UTF-8";
		return !ok || o == e16(v) ? "" : "wrong UTF-16 text";
	}
	String s("xy");
	std::basic_string<Char> pre;
	try {
		if (f == "app_p") { pre = e32(U32{'x', 'y'}); s.append((const char*)h.p, h.n); }
		else if (f == "app_s") { pre = e32(U32{'x', 'y'}); s.append(m); }
		else if (f == "ctor_p") { String t((const char*)h.p, h.n); s = t; }
		else if (f == "ctor_s") { String t(m); s = t; }
		else if (f == "assign_s") s.assign(m);
		else if (f == "eq_s") s = m;
		else return "skip";
	} catch (std::exception&) { return ok ? "refuses well-formed UTF-8" : ""; }
	if (!ok) return "accepts ill-formed UTF-8";
	if (s.get() != pre + e32(v)) return "wrong characters";
	return pre.empty() && s.toUtf8() != m ? "round trip" : "";
}
static uint32_t cp(Rng& r)
{
	static const uint32_t t[] = { 0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff };
	for (;;) {
		uint32_t c;
		switch (r.below(7)) {
		case 0: c = t[r.below(sizeof(t) / sizeof(t[0]))]; break;
		case 1: c = (uint32_t)r.below(0x80); break;
		case 2: c = (uint32_t)r.below(0x800); break;
		case 3: c = (uint32_t)r.below(0x10000); break;
		case 4: c = (uint32_t)r.below(0x110000); break;
		case 5: c = (uint32_t)(r.below(0x110) << 12) + (uint32_t)r.below(64) * (r.coin() ? 64 : 1); break;
		default: c = t[r.below(sizeof(t) / sizeof(t[0]))] + (uint32_t)r.below(5) - 2; break;
		}
		if (valid(c)) return c;
	}
}
void gen(Rng& r, const std::string& f, Case& c)
{
	if (f == "size" || f == "valid" || f == "to8" || f == "app8" || f == "to16" || f == "app16") {
		c.n["c"] = r.coin() ? cp(r) : r.coin() ? (uint32_t)r.val() : (uint32_t)(0xd700 + r.below(0xa00));
		return;
	}
	size_t n = r.coin(40) ? 1000 + r.below(400) : r.len(40);
	if (f == "get8" || f == "get16" || f == "next") n = 1 + r.below(3);
	U32 v; for (size_t i = 0; i < n; i++) v.push_back(cp(r));
	std::string m;
	if (f.find("16_8") != std::string::npos || f == "ToUtf8" || f == "app_16" || f == "get16") { String16 x = e16(v); m.assign((const char*)x.data(), x.size() * 2);
		if (r.coin(3) && !m.empty()) { size_t k = r.below(m.size() / 2); m[k * 2 + 1] = (char)(0xd8 + r.below(8)); }
		if (r.coin(4)) m.resize(r.below(m.size() / 2 + 1) * 2);
	} else if (f.compare(0, 3, "str") == 0) {
		if (r.coin(4) && n) v[r.below(n)] = (uint32_t)r.val();
		m.assign((const char*)v.data(), v.size() * 4);
	} else { m = e8(v);
		if (r.coin(3) && !m.empty()) { size_t k = r.below(m.size()); m[k] = (char)r.u64(); }
		if (r.coin(4) && !m.empty()) m[r.below(m.size())] ^= (char)(1 << r.below(8));
		if (r.coin(4)) m.resize(r.below(m.size() + 1));
		if (r.coin(3) && m.size() >= 2) { static const uint8_t lead[] = { 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5 }; static const uint8_t tr[] = { 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0 };
			size_t k = r.below(m.size() - 1); m[k] = (char)lead[r.below(sizeof(lead))]; m[k + 1] = (char)tr[r.below(sizeof(tr))]; }
		if (f == "get8" && m.empty()) m = "\xe0";
	}
	c.s["M"] = m;
	if (f == "next") c.n["p"] = r.below(m.size() + 1);
}
