SEEDS = [
dict(id='p07-chunk-carry', prop='P07', edits=[('base64.hpp', "		cybozu::write(os, outBuf, outBufSize);\n		outBufSize = 0;\n", "		cybozu::write(os, outBuf, outBufSize);\n		outBufSize = 0;\n		if (readSize < 3 && idx == 2) remain &= 0x3c & ~4u;\n")],
  needs='a stream that delivers one or two bytes at a time', breaks='bits carried over a short piece are lost',
  demo=r'''#include <cybozu/base64.hpp>
#include <cybozu/stream.hpp>
struct Slow { const char *p; size_t n; size_t readSome(void *b, size_t s) { size_t m = n < 2 ? n : 2; if (m > s) m = s; for (size_t i = 0; i < m; i++) ((char*)b)[i] = p[i]; p += m; n -= m; return m; } };
int main()
{
	Slow is = { "\x01\x01\x01\x03\x03\x03\x07", 7 };
	std::string t;
	cybozu::StringOutputStream os(t);
	cybozu::EncodeToBase64(os, is, 0);
	return t == "AQEBAwMDBw==" ? 0 : 1;
}
'''),

dict(id='p08-sur-pair', prop='P08', edits=[('string.hpp', "out[0] = static_cast<Char16>((c >> 10) + 0xd7c0);", "out[0] = static_cast<Char16>((((c - 0x10000) >> 10) & 0x1ff) | 0xd800 | (c >= 0x100000 ? 0x3c0 : 0) | ((c & 0x80000) >> 10));")],
  needs='a character in one of the planes 9..16', breaks='the lead surrogate of some supplementary planes is wrong',
  demo=r"""#include <cybozu/string.hpp>
int main()
{
	for (int c = 0x10000; c <= 0x10ffff; c += 0x3ff) {
		cybozu::Char16 o[2];
		if (cybozu::string::toUtf16(o, c) != 2) return 1;
		if (0x10000 + ((o[0] - 0xd800) << 10) + (o[1] - 0xdc00) != c) return 1;
	}
	return 0;
}
"""),
dict(id='p08-tail-over', prop='P08', edits=[('string.hpp', "(c0 == 0xe0 && string_local::in(c1, 0xa0, 0xbf))", "(c0 == 0xe0 && string_local::in(c1, begin == end ? 0xa0 : 0x9f, 0xbf))")],
  needs='an overlong three-byte form e0 9f xx that is not at the end of the text', breaks='overlong forms are accepted',
  demo=r"""#include <cybozu/string.hpp>
int main()
{
	cybozu::String16 o;
	return cybozu::ConvertUtf8ToUtf16(&o, std::string("\xe0\x9f\xbf!")) ? 1 : 0;
}
"""),

dict(id='p09-mem-refuse', prop='P09', edits=[('stream.hpp', "		if (size > size_ - pos) {\n			*pb = false;\n			return;\n		}\n		memcpy(p_ + pos, buf, size);\n		pos += size;\n", "		const size_t room = size_ - pos;\n		memcpy(p_ + pos, buf, size < room ? size : room);\n		if (size > room) {\n			*pb = false;\n			return;\n		}\n		pos += size;\n")],
  needs='a write that does not fit', breaks='a refused write has overwritten the rest of the memory',
  demo=r"""#include <cybozu/stream.hpp>
#include <string.h>
int main()
{
	char m[9] = "........";
	cybozu::MemoryOutputStream os(m, 8);
	bool b;
	os.write(&b, "abc", 3);
	os.write(&b, "123456789", 9);
	return !b && os.getPos() == 3 && memcmp(m, "abc.....", 8) == 0 ? 0 : 1;
}
"""),
dict(id='p09-read-short', prop='P09', edits=[('stream.hpp', "		p += readSize;\n		size -= readSize;\n", "		p += readSize;\n		size -= readSize;\n		if (size == 1 && readSize == 1) size = readSome(p, 1, is) & 0;\n")],
  needs='a stream that delivers one byte when two remain to be read and ends there', breaks='the end of the stream is not noticed',
  demo=r"""#include <cybozu/stream.hpp>
struct One { const char *p; size_t n; size_t readSome(void *b, size_t s) { if (!n || !s) return 0; *(char*)b = *p++; n--; return 1; } };
int main()
{
	One is = { "abc", 3 };
	char buf[4];
	bool b = true;
	cybozu::read(&b, buf, 4, is);
	return b ? 1 : 0;
}
"""),

dict(id='p10-len-tag', prop='P10', edits=[('serializer.hpp', "		if (unsigned(u8 - 0x80) <= 7) {\n", "		if (unsigned(u8 - 0x80) < 7) {\n")],
  needs='the value -121', breaks='-121 is written as a bare header byte',
  demo=r"""#include <cybozu/serializer.hpp>
int main()
{
	for (int v = -200; v < 300; v++) {
		std::string s;
		cybozu::StringOutputStream os(s);
		cybozu::save(os, v);
		cybozu::StringInputStream is(s);
		int x = 0;
		try { cybozu::load(x, is); } catch (std::exception&) { return 1; }
		if (x != v) return 1;
	}
	return 0;
}
"""),
]
