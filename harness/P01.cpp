#include <cybozu/atoi.hpp>
#include "h.hpp"

/* oracle: optional '-', at least one digit, nothing else, value in range */
static bool oracle(const std::string& t, bool hex, int w, bool sg, __int128& v)
{
	size_t i = 0;
	bool neg = false;
	if (!hex && sg && !t.empty() && t[0] == '-') { neg = true; i = 1; }
	if (i >= t.size()) return false;
	v = 0;
	__int128 big = (__int128)1 << 100;
	for (; i < t.size(); i++) {
		unsigned char c = t[i];
		int d;
		if (c >= '0' && c <= '9') d = c - '0';
		else if (hex && c >= 'a' && c <= 'f') d = c - 'a' + 10;
		else if (hex && c >= 'A' && c <= 'F') d = c - 'A' + 10;
		else return false;
		if (v < big) v = v * (hex ? 16 : 10) + d;
	}
	__int128 mx = sg ? ((__int128)1 << (w - 1)) - 1 : ((__int128)1 << w) - 1;
	if (neg) { mx = (__int128)1 << (w - 1); }
	if (v > mx) return false;
	if (neg) v = -v;
	return true;
}

template<class T, class C>
std::string run(const Case& c, int w, bool sg, bool hex)
{
	const std::string& form = c.b("form");
	std::string f = form;
	if (f.empty()) f = "b";
	const std::string& p = c.b("p");
	HeapBuf buf(p);
	bool zf = f[0] == 'z';
	size_t n = zf ? (size_t)-1 : p.size();
	std::string text = p.substr(0, strnlen(p.data(), p.size()));
	if (zf && text.size() == p.size()) return "skip";
	__int128 ev = 0;
	bool eok = oracle(text, hex, w, sg, ev);
	T v = 0;
	bool ok = true;
	if (f == "b" || f == "z") {
		ok = !eok;
		if (zf) v = C(&ok, buf.p); else v = C(&ok, buf.p, n);
	} else {
		try { if (zf) v = C(buf.p); else v = C(buf.p, n); } catch (std::exception&) { ok = false; }
	}
	if (ok != eok) return "text '" + text + "' accepted=" + std::to_string(ok) + " expected=" + std::to_string(eok);
	if (ok && (__int128)v != ev) return "text '" + text + "' gives " + std::to_string(v) + " expected " + std::to_string((long long)ev);
	if (!ok && v != 0) return "rejected but value is not zero";
	return "";
}
template<class T>
std::string run2(const Case& c, int w, bool sg, bool hex)
{
	std::string r = hex ? run<T, cybozu::hextoi>(c, w, sg, true) : run<T, cybozu::atoi>(c, w, sg, false);
	return r;
}
std::string check(const Case& c0)
{
	Case c = c0;
	bool hex = c.fn.compare(0, 3, "hex") == 0;
	size_t a = c.fn.find('/'), b = c.fn.find('/', a + 1);
	int w = atoi(c.fn.substr(a + 1, b - a - 1).c_str());
	bool sg = c.fn.substr(b + 1) == "1";
	std::string r;
	/* every form on this text */
	for (const char *f : { "b", "x", "z", "zx" }) {
		c.s["form"] = f;
		Case d = c;
		if (f[0] == 'z') d.s["p"] = c.b("p") + std::string(1, '\0');
		std::string q;
		switch (w * 2 + sg) {
		case 16: q = run2<unsigned char>(d, w, sg, hex); break;
		case 17: q = run2<signed char>(d, w, sg, hex); if (q.empty() && hex) q = run<char, cybozu::hextoi>(d, w, sg, true); break;
		case 32: q = run2<unsigned short>(d, w, sg, hex); break;
		case 33: q = run2<short>(d, w, sg, hex); break;
		case 64: q = run2<unsigned int>(d, w, sg, hex); break;
		case 65: q = run2<int>(d, w, sg, hex); break;
		case 128: q = run2<unsigned long>(d, w, sg, hex); if (q.empty()) q = run2<unsigned long long>(d, w, sg, hex); break;
		default: q = run2<long>(d, w, sg, hex); if (q.empty()) q = run2<long long>(d, w, sg, hex); break;
		}
		if (!q.empty() && q != "skip") return c.fn + " form " + f + ": " + q;
	}
	return "";
}
void gen(Rng& r, const std::string& fn, Case& c)
{
	bool hex = fn.compare(0, 3, "hex") == 0;
	size_t a = fn.find('/'), b = fn.find('/', a + 1);
	int w = atoi(fn.substr(a + 1, b - a - 1).c_str());
	std::string s;
	switch (r.below(4)) {
	case 0: s = r.bytes(r.len(12)); break;
	case 1: s = r.from(hex ? "0123456789abcdefABCDEFgG@`/:x" : "0123456789-+/: ", r.len(24)); break;
	default: {
		/* near the range limits */
		unsigned __int128 v = (unsigned __int128)1 << (w - (int)r.below(2));
		v += (int)r.below(24) - 12;
		if (r.coin(3)) v = r.val();
		std::string t;
		do { t.insert(t.begin(), "0123456789abcdef"[(int)(v % (hex ? 16 : 10))]); v /= (hex ? 16 : 10); } while (v);
		s = (r.coin() ? "-" : "") + std::string(r.coin(3) ? r.below(5) : 0, '0') + t;
		if (r.coin(4)) s += r.from("0123456789", r.below(4));
		if (r.coin(8) && !s.empty()) s[r.below(s.size())] = (char)r.u64();
	} }
	c.s["p"] = s;
}
