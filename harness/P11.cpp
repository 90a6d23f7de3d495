#include <cybozu/bitvector.hpp>
#include "h.hpp"
typedef std::vector<bool> VB;
template<class T> struct H {
	typedef cybozu::BitVectorT<T> V;
	static const size_t U = sizeof(T) * 8;
	static VB bits(const std::string& s, size_t n) { VB r; for (size_t i = 0; i < n; i++) r.push_back(i / 8 < s.size() && ((unsigned char)s[i / 8] >> (i % 8) & 1)); return r; }
	static std::string pack(const VB& b) { std::string r((b.size() + U - 1) / U * sizeof(T), 0); for (size_t i = 0; i < b.size(); i++) if (b[i]) r[i / 8] |= 1 << (i % 8); return r; }
	static void make(V& v, const VB& b) { v.resize(b.size()); std::string p = pack(b); if (!p.empty()) memcpy(v.getBlock(), p.data(), p.size()); }
	static bool same(const V& v, const VB& b)
	{
		if (v.size() != b.size()) return false;
		std::string p = pack(b);
		if (v.getBlockSize() * sizeof(T) != p.size()) return false;
		return p.empty() || memcmp(v.getBlock(), p.data(), p.size()) == 0;
	}
	static std::string check(const Case& c, const std::string& f)
	{
		size_t len = c.i("len"), len2 = c.i("len2"), n = c.i("n"), x = c.i("x"), pos = c.i("pos"), i = c.i("i");
		bool b = c.i("b");
		if (len > 1000000 || len2 > 1000000) return "skip";
		VB a = bits(c.b("blk"), len), a2 = bits(c.b("blk2"), len2), w = a;
		V v; make(v, a);
		V v2; make(v2, a2);
		bool thrown = false;
		if (f == "init" || f == "appendp") {
			if (n > 1000000) return "skip";
			std::string src = c.b("src"); src.resize((n + U - 1) / U * sizeof(T));
			HeapBuf s(src);
			if (f == "init") { v.init((const T*)s.p, n); w = bits(src, n); } else { v.append((const T*)s.p, n); VB e = bits(src, n); w.insert(w.end(), e.begin(), e.end()); }
			return same(v, w) ? "" : f;
		}
		if (f == "copybit" || f == "shl") {
			if (n > 1000000) return "skip";
			std::string src = c.b("src"); src.resize((n + U - 1) / U * sizeof(T));
			VB e = bits(src, n);
			HeapBuf s(src), d(src.size());
			if (f == "copybit") { cybozu::CopyBit<T>((T*)d.p, (const T*)s.p, n); return d.str() == pack(e) ? "" : f; }
			size_t sh = c.i("sh"); T ext = (T)c.i("ext");
			T r = 0;
			try { r = cybozu::ShiftLeftBit<T>((T*)d.p, (const T*)s.p, n, sh, ext); } catch (std::exception&) { thrown = true; }
			if (thrown != (n && sh >= U)) return "shl: exception";
			if (thrown || n == 0) return "";
			VB t(sh, false); t.insert(t.end(), e.begin(), e.end());
			std::string p = pack(t), carry(sizeof(T), 0); p.resize(src.size() + sizeof(T)); carry = p.substr(src.size());
			p.resize(src.size());
			for (size_t k = 0; k < sizeof(T); k++) p[k] |= (char)(ext >> (8 * k));
			return d.str() == p && memcmp(&r, carry.data(), sizeof(T)) == 0 ? "" : f;
		}
		if (f == "appendi") {
			try { v.append((uint64_t)x, n); } catch (std::exception&) { thrown = true; }
			if (thrown != (n > U)) return "appendi: exception";
			if (!thrown) for (size_t k = 0; k < n; k++) w.push_back(x >> k & 1);
			return same(v, w) ? "" : f;
		}
		if (f == "appendv") { v.append(v2); w.insert(w.end(), a2.begin(), a2.end()); return same(v, w) && same(v2, a2) ? "" : f; }
		if (f == "eq" || f == "ne") {
			/* also vectors built from dirty blocks */
			V y; std::string p = pack(a2); p.resize((len2 + U - 1) / U * sizeof(T)); HeapBuf s(p);
			if (len2 % U && p.size()) s.p[p.size() - 1] |= (char)(0xff << (len2 % 8 ? len2 % 8 : 8));
			y.init((const T*)s.p, len2);
			return (v == v2) == (a == a2) && (v != v2) == (a != a2) && (v == y) == (a == a2) ? "" : f;
		}
		if (f == "get" || f == "set" || f == "reset" || f == "setb") {
			bool r = false;
			try { if (f == "get") r = v.get(i); else if (f == "set") v.set(i); else if (f == "reset") v.reset(i); else v.set(i, b); } catch (std::exception&) { thrown = true; }
			if (thrown != (i >= len)) return f + ": exception";
			if (!thrown) { if (f == "get" && r != w[i]) return f; if (f == "set") w[i] = true; else if (f == "reset") w[i] = false; else if (f == "setb") w[i] = b; }
			return same(v, w) ? "" : f;
		}
		if (f == "resize") { if (n > 1000000) return "skip"; v.resize(n); w.resize(n, false); return same(v, w) ? "" : f; }
		if (f == "clear") { v.clear(); return same(v, VB()) ? "" : f; }
		if (f == "size") return v.size() == len ? "" : f;
		if (f == "extracti" || f == "extractp" || f == "extractv") {
			bool bad = n && (n > len || pos > len - n || (f == "extracti" && n > U));
			VB e; if (!bad) for (size_t k = 0; k < n; k++) e.push_back(a[pos + k]);
			if (f == "extractv") {
				if (n > 1000000) return "skip";
				try { v.extract(v2, pos, n); } catch (std::exception&) { thrown = true; }
				return thrown == bad && same(v, a) && (bad || same(v2, e)) ? "" : f;
			}
			if (f == "extractp") {
				HeapBuf d(bad || n == 0 ? 0 : (n + U - 1) / U * sizeof(T));
				try { v.extract((T*)d.p, pos, n); } catch (std::exception&) { thrown = true; }
				return thrown == bad && same(v, a) && (bad || d.str() == pack(e)) ? "" : f;
			}
			T r = 0, want = 0;
			for (size_t k = 0; k < e.size(); k++) if (e[k]) want |= T(1) << k;
			try { r = v.extract(pos, n); } catch (std::exception&) { thrown = true; }
			return thrown == bad && (bad || r == want) && same(v, a) ? "" : f;
		}
		return "skip";
	}
};
std::string check(const Case& c)
{
	size_t k = c.fn.find_first_of("0123456789");
	std::string f = c.fn.substr(0, k);
	int u = atoi(c.fn.c_str() + k);
	return u == 8 ? H<uint8_t>::check(c, f) : u == 32 ? H<uint32_t>::check(c, f) : H<uint64_t>::check(c, f);
}
void gen(Rng& r, const std::string& fn, Case& c)
{
	size_t u = atoi(fn.c_str() + fn.find_first_of("0123456789"));
	size_t len = r.coin(3) ? u * r.below(5) : r.len(300), len2 = r.coin(4) ? len : r.coin(3) ? u * r.below(5) : r.len(300);
	c.n["len"] = len; c.n["len2"] = len2;
	c.s["blk"] = r.bytes(len / 8 + 1); c.s["blk2"] = r.coin(3) ? c.s["blk"] : r.bytes(len2 / 8 + 1);
	if (r.coin(5)) { c.s["blk"].assign(len / 8 + 1, 0); c.s["blk2"].assign(len2 / 8 + 1, 0); }
	c.n["x"] = r.val();
	c.n["n"] = fn[0] == 'a' && fn.find("appendi") == 0 ? r.below(u + 2) : fn.find("extracti") == 0 ? r.below(u + 2) : r.coin(3) ? u * r.below(5) : r.len(300);
	if (r.coin(3)) c.n["pos"] = r.val(); else c.n["pos"] = r.below(len + 2);
	if (r.coin(4) && c.n["pos"] <= len) c.n["n"] = len - c.n["pos"];
	if (r.coin(40)) c.n["n"] = fn[0] == 'e' ? r.val() : c.n["n"];
	c.n["i"] = r.coin(6) ? r.val() : r.below(len + 2);
	c.n["b"] = r.below(2);
	c.s["src"] = r.bytes(c.n["n"] < 100000 ? c.n["n"] / 8 + 16 : 16);
	c.n["sh"] = r.coin(6) ? u + r.below(3) : r.below(u); c.n["ext"] = r.val();
}
