#include "h.hpp"
#include <cybozu/stream.hpp>
struct PieceIn {
	const std::string& s; size_t p; Rng r;
	PieceIn(const std::string& s, size_t pre, uint64_t seed) : s(s), p(pre), r(seed) {}
	size_t readSome(void *buf, size_t n)
	{
		size_t m = s.size() - p;
		if (m > n) m = n;
		if (m > 1 && r.coin()) m = 1 + r.below(m);
		if (m) memcpy(buf, s.data() + p, m);
		p += m;
		return m;
	}
};
struct StrOut {
	std::string s; bool fail;
	StrOut() : fail(false) {}
	void write(const void *p, size_t n) { s.append((const char*)p, n); }
	void write(bool *pb, const void *p, size_t n) { if (fail) { *pb = false; return; } s.append((const char*)p, n); *pb = true; }
};
std::string check(const Case& c)
{
	const std::string& f = c.fn;
	const std::string& m = c.b("M");
	size_t n = c.i("n"), pre = c.i("pre"), n1 = c.i("n1"), n2 = c.i("n2");
	if (pre > m.size() || n > 1 << 22 || n1 > 1 << 22 || n2 > 1 << 22) return "skip";
	PieceIn is(m, pre, c.i("seed", 1));
	size_t left = m.size() - pre;
	if (f == "read" || f == "read_b") {
		HeapBuf b(n); bool ok = true;
		if (f == "read") { try { cybozu::read(b.p, n, is); } catch (std::exception&) { ok = false; } }
		else cybozu::read(&ok, b.p, n, is);
		if (ok != (n <= left)) return "exact read: wrong verdict";
		if (ok && (b.str() != m.substr(pre, n) || is.p != pre + n)) return "exact read: wrong bytes";
		/* the standard streams take the same path */
		std::istringstream ss(m.substr(pre)); HeapBuf b2(n); ok = true;
		cybozu::read(&ok, b2.p, n, ss);
		if (ok != (n <= left) || (ok && b2.str() != m.substr(pre, n))) return "exact read from a std::istream";
		return "";
	}
	if (f == "readSome" || f == "tag_readSome") {
		HeapBuf b(n);
		size_t r = f[0] == 'r' ? cybozu::readSome(b.p, n, is) : cybozu::InputStreamTag<PieceIn>::readSome(b.p, n, is);
		if (r > n || is.p != pre + r || (r == 0) != (n == 0 || left == 0)) return "readSome: count";
		return memcmp(b.p, m.data() + pre, r) ? "readSome: bytes" : "";
	}
	if (f == "readChar" || f == "tag_readChar") {
		char x = 5;
		bool ok = f[0] == 'r' ? cybozu::readChar(&x, is) : cybozu::InputStreamTag<PieceIn>::readChar(&x, is);
		return ok == (left > 0) && (!ok || x == m[pre]) && is.p == pre + ok ? "" : "readChar";
	}
	if (f.find("write") != std::string::npos) {
		StrOut os; bool ok = true; std::string want = m;
		HeapBuf b(m);
		if (f == "write") cybozu::write(os, b.p, b.n);
		else if (f == "tag_write") cybozu::OutputStreamTag<StrOut>::write(os, b.p, b.n);
		else if (f == "write_b") { os.fail = c.i("fail"); cybozu::write(&ok, os, b.p, b.n); }
		else { want = std::string(1, (char)c.i("c")); if (f == "writeChar") cybozu::writeChar(os, (char)c.i("c")); else { os.fail = c.i("fail"); cybozu::writeChar(&ok, os, (char)c.i("c")); } }
		if (ok == os.fail) return "write: flag";
		if (os.s != (os.fail ? "" : want)) return "write: bytes";
		std::ostringstream ss; cybozu::write(ss, b.p, b.n);
		return ss.str() == m ? "" : "write to a std::ostream";
	}
	if (f == "mis" || f == "sis") {
		HeapBuf s(m), b1(n1), b2(n2);
		size_t k1 = std::min(n1, m.size()), k2 = std::min(n2, m.size() - k1), r1, r2, p1, p2;
		if (f == "mis") { cybozu::MemoryInputStream is(s.p, s.n); r1 = is.readSome(b1.p, n1); p1 = is.getPos(); r2 = is.readSome(b2.p, n2); p2 = is.getPos(); }
		else { cybozu::StringInputStream is(m); r1 = is.readSome(b1.p, n1); p1 = is.getPos(); r2 = is.readSome(b2.p, n2); p2 = is.getPos(); }
		if (r1 != k1 || p1 != k1 || r2 != k2 || p2 != k1 + k2) return "input stream: counts";
		return b1.str() == m.substr(0, k1) + std::string(n1 - k1, '\xAA') && b2.str() == m.substr(k1, k2) + std::string(n2 - k2, '\xAA') ? "" : "input stream: bytes";
	}
	const std::string &x = c.b("b1"), &y = c.b("b2");
	HeapBuf b1(x), b2(y);
	bool ok1 = true, ok2 = true; size_t p1, p2;
	if (f == "sos_b") {
		std::string s = m; cybozu::StringOutputStream os(s);
		os.write(&ok1, b1.p, b1.n); p1 = os.getPos(); os.write(b2.p, b2.n); p2 = os.getPos();
		return ok1 && s == m + x + y && p1 == m.size() + x.size() && p2 == s.size() ? "" : "StringOutputStream";
	}
	HeapBuf s(m);
	cybozu::MemoryOutputStream os(s.p, s.n);
	os.write(&ok1, b1.p, b1.n); p1 = os.getPos();
	if (f == "mos") { try { os.write(b2.p, b2.n); } catch (std::exception&) { ok2 = false; } } else os.write(&ok2, b2.p, b2.n);
	p2 = os.getPos();
	bool w1 = x.size() <= m.size(); size_t k1 = w1 ? x.size() : 0;
	bool w2 = y.size() <= m.size() - k1; size_t k2 = w2 ? y.size() : 0;
	std::string want = m;
	if (w1) want.replace(0, k1, x);
	if (w2) want.replace(k1, k2, y);
	return ok1 == w1 && ok2 == w2 && p1 == k1 && p2 == k1 + k2 && s.str() == want ? "" : "MemoryOutputStream";
}
void gen(Rng& r, const std::string& f, Case& c)
{
	std::string m = r.bytes(r.biglen(60));
	c.s["M"] = m;
	c.n["seed"] = r.below(1 << 20);
	c.n["c"] = r.below(256); c.n["fail"] = r.below(2);
	c.n["pre"] = r.coin() ? 0 : r.below(m.size() + 1);
	c.n["n"] = r.coin() ? m.size() - c.n["pre"] : r.below(m.size() + 4);
	size_t k = r.coin(4) ? m.size() : r.below(m.size() + 3);
	c.n["n1"] = k;
	size_t k2 = r.coin(3) && k <= m.size() ? m.size() - k + r.below(2) : r.below(m.size() + 3);
	c.n["n2"] = k2;
	if (f == "mos" || f == "mos_b" || f == "sos_b") { c.s["b1"] = r.bytes(k); c.s["b2"] = r.bytes(k2); }
}
